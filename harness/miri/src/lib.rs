//! Stands in for the git dependency `miri`, which is not available offline: what aquascope's interpreter uses of it, over the
//! compiler's own MIR interpreter. It runs programs that need nothing of the system but an allocator.
#![feature(rustc_private, never_type, yeet_expr)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_hir;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_target;

pub use rustc_const_eval::interpret::{interp_ok, throw_ub_format, throw_unsup_format, AllocId, AllocInfo, AllocKind, AllocMap, AllocRange, Allocation, CheckInAllocMsg, Frame, Immediate, InterpCx, InterpErrorInfo, InterpErrorKind, InterpResult, LocalState, Machine, MemPlaceMeta, MemoryKind, Projectable, UndefinedBehaviorInfo};
use rustc_const_eval::interpret::{self, CtfeProvenance, FnArg, MayLeak, Pointer, ReturnAction, Scalar, StackPopCleanup, CTFE_ALLOC_SALT};
use rustc_abi::{Align, ExternAbi, Size};
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def_id::DefId;
use rustc_middle::{mir, ty::{self, layout::{LayoutOf, TyAndLayout}, Instance, TyCtxt, TypingEnv}};
use rustc_session::config::EntryFnType;
use std::{borrow::{Borrow, Cow}, cell::RefCell};

/// The allocation that a pointer points into.
#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
pub struct Provenance(AllocId);
impl interpret::Provenance for Provenance {
  const OFFSET_IS_ADDR: bool = true;
  const WILDCARD: Option<Self> = None;
  fn fmt(ptr: &Pointer<Self>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}[{:?}]", ptr.into_parts().1, ptr.provenance) }
  fn get_alloc_id(self) -> Option<AllocId> { Some(self.0) }
  fn join(l: Option<Self>, r: Option<Self>) -> Option<Self> { if l == r { l } else { None } }
}
/// An allocation's address.
fn base(id: AllocId) -> Size { Size::from_bytes(id.0.get() << 24) }
pub type AllocExtra<'tcx> = std::marker::PhantomData<&'tcx ()>;
pub type FrameExtra<'tcx> = std::marker::PhantomData<&'tcx ()>;
pub type MiriAllocBytes = Box<[u8]>;
pub type OpTy<'tcx> = interpret::OpTy<'tcx, Provenance>;
pub type ImmTy<'tcx> = interpret::ImmTy<'tcx, Provenance>;
pub type MPlaceTy<'tcx> = interpret::MPlaceTy<'tcx, Provenance>;
pub type PlaceTy<'tcx> = interpret::PlaceTy<'tcx, Provenance>;
type Cx<'tcx> = InterpCx<'tcx, MiriMachine<'tcx>>;
type Kind = MemoryKind<MiriMemoryKind>;
type Alloc<'tcx> = Allocation<Provenance, AllocExtra<'tcx>, MiriAllocBytes>;

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum MiriMemoryKind { Rust, Global }
impl std::fmt::Display for MiriMemoryKind { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl MayLeak for MiriMemoryKind { fn may_leak(self) -> bool { true } }

/// As miri's: copies of globals are added through a shared reference; boxes keep their addresses.
pub struct MonoHashMap<K, V>(RefCell<FxHashMap<K, Box<V>>>);
impl<K: std::hash::Hash + Eq, V> MonoHashMap<K, V> { pub fn get(&self, k: K) -> Option<&V> { self.0.borrow().get(&k).map(|v| unsafe { &*std::ptr::addr_of!(**v) }) } }
impl<K: Clone, V: Clone> Clone for MonoHashMap<K, V> { fn clone(&self) -> Self { MonoHashMap(RefCell::new(self.0.borrow().clone())) } }
impl<K, V> Default for MonoHashMap<K, V> { fn default() -> Self { MonoHashMap(Default::default()) } }
impl<K: std::hash::Hash + Eq, V> AllocMap<K, V> for MonoHashMap<K, V> {
  fn contains_key<Q: ?Sized + std::hash::Hash + Eq>(&mut self, k: &Q) -> bool where K: Borrow<Q> { self.0.borrow().contains_key(k) }
  fn contains_key_ref<Q: ?Sized + std::hash::Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.0.borrow().contains_key(k) }
  fn insert(&mut self, k: K, v: V) -> Option<V> { self.0.borrow_mut().insert(k, Box::new(v)).map(|x| *x) }
  fn remove<Q: ?Sized + std::hash::Hash + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.0.borrow_mut().remove(k).map(|x| *x) }
  fn filter_map_collect<T>(&self, mut f: impl FnMut(&K, &V) -> Option<T>) -> Vec<T> { self.0.borrow().iter().filter_map(|(k, v)| f(k, v)).collect() }
  fn get_or<E>(&self, k: K, vacant: impl FnOnce() -> Result<V, E>) -> Result<&V, E> {
    if !self.0.borrow().contains_key(&k) { let v = vacant()?; let mut m = self.0.borrow_mut(); let r = m.entry(k).or_insert(Box::new(v)); return Ok(unsafe { &*std::ptr::addr_of!(**r) }); }
    Ok(self.get(k).unwrap())
  }
  fn get_mut_or<E>(&mut self, k: K, vacant: impl FnOnce() -> Result<V, E>) -> Result<&mut V, E> {
    match self.0.get_mut().entry(k) { std::collections::hash_map::Entry::Occupied(e) => Ok(e.into_mut()), std::collections::hash_map::Entry::Vacant(e) => Ok(e.insert(Box::new(vacant()?))) }
  }
}

#[derive(Default)] pub enum ValidationMode { No, #[default] Shallow }
#[derive(Default)] pub struct BorrowTracker;
#[derive(Default)]
pub struct MiriConfig { pub mute_stdout_stderr: bool, pub validation: ValidationMode, pub borrow_tracker: Option<BorrowTracker>, pub seed: Option<u64> }

pub struct MiriMachine<'tcx> { pub stack: Vec<Frame<'tcx, Provenance, FrameExtra<'tcx>>>, shim: Option<Pointer<Provenance>> }

pub fn create_ecx<'tcx>(tcx: TyCtxt<'tcx>, entry_id: DefId, _entry_type: EntryFnType, _config: &MiriConfig) -> InterpResult<'tcx, Cx<'tcx>> {
  let mut ecx = InterpCx::new(tcx, rustc_span::DUMMY_SP, TypingEnv::fully_monomorphized(), MiriMachine { stack: vec![], shim: None });
  let u8l = ecx.layout_of(tcx.types.u8)?;
  let shim = ecx.allocate(u8l, MemoryKind::Machine(MiriMemoryKind::Global))?;
  ecx.write_scalar(Scalar::from_u8(0), &shim)?;
  let p: Pointer<Option<Provenance>> = shim.ptr();
  ecx.machine.shim = Some(Pointer::new(p.provenance.unwrap(), p.into_parts().1));
  // main is called as a function pointer, by code that is not the crate's
  let main = Instance::mono(tcx, entry_id);
  let sig = tcx.normalize_erasing_regions(TypingEnv::fully_monomorphized(), tcx.fn_sig(entry_id).instantiate_identity());
  let fn_ptr = ty::Ty::new_fn_ptr(tcx, sig);
  let once = tcx.require_lang_item(rustc_hir::LangItem::FnOnce, None);
  let call_once = tcx.associated_items(once).in_definition_order().find(|i| i.kind == ty::AssocKind::Fn).unwrap().def_id;
  let unit = tcx.types.unit;
  let instance = Instance { def: ty::InstanceKind::FnPtrShim(call_once, fn_ptr), args: tcx.mk_args(&[fn_ptr.into(), unit.into()]) };
  let abi = match tcx.fn_abi_of_instance(TypingEnv::fully_monomorphized().as_query_input((instance, ty::List::empty()))) { Ok(a) => a, Err(_) => throw_unsup_format!("no ABI") };
  let body = ecx.load_mir(instance.def, None)?;
  let ret = ecx.layout_of(tcx.erase_regions(sig.output().skip_binder()))?;
  let dest = ecx.allocate(ret, MemoryKind::Machine(MiriMemoryKind::Global))?;
  let ptr = ecx.fn_ptr(interpret::FnVal::Instance(main));
  let fn_arg = ImmTy::from_scalar(Scalar::from_pointer(ptr, &ecx), ecx.layout_of(fn_ptr)?);
  ecx.init_stack_frame(instance, body, abi, &[FnArg::Copy(fn_arg.into())], false, &dest, StackPopCleanup::Root { cleanup: true })?;
  interp_ok(ecx)
}

impl<'tcx> Machine<'tcx> for MiriMachine<'tcx> {
  type MemoryKind = MiriMemoryKind;
  type Provenance = Provenance;
  type ProvenanceExtra = ();
  type ExtraFnVal = !;
  type FrameExtra = FrameExtra<'tcx>;
  type AllocExtra = AllocExtra<'tcx>;
  type Bytes = MiriAllocBytes;
  type MemoryMap = MonoHashMap<AllocId, (Kind, Alloc<'tcx>)>;
  const GLOBAL_KIND: Option<MiriMemoryKind> = Some(MiriMemoryKind::Global);
  const PANIC_ON_ALLOC_FAIL: bool = false;

  fn enforce_alignment(_: &Cx<'tcx>) -> bool { true }
  fn enforce_validity(_: &Cx<'tcx>, _: TyAndLayout<'tcx>) -> bool { false }
  fn ignore_optional_overflow_checks(_: &Cx<'tcx>) -> bool { false }
  fn find_mir_or_eval_fn(ecx: &mut Cx<'tcx>, instance: Instance<'tcx>, _: ExternAbi, args: &[FnArg<'tcx, Provenance>], dest: &MPlaceTy<'tcx>, ret: Option<mir::BasicBlock>, _: mir::UnwindAction) -> InterpResult<'tcx, Option<(&'tcx mir::Body<'tcx>, Instance<'tcx>)>> {
    let tcx = *ecx.tcx;
    if tcx.is_foreign_item(instance.def_id()) {
      let args: Vec<OpTy<'tcx>> = ecx.copy_fn_args(args);
      let name = tcx.item_name(instance.def_id());
      let usize_at = |ecx: &Cx<'tcx>, i: usize| ecx.read_scalar(&args[i])?.to_target_usize(ecx);
      match name.as_str() {
        "__rust_alloc" | "__rust_alloc_zeroed" => {
          let (size, align) = (usize_at(ecx, 0)?, usize_at(ecx, 1)?);
          let p = ecx.allocate_ptr(Size::from_bytes(size), Align::from_bytes(align).unwrap(), MemoryKind::Machine(MiriMemoryKind::Rust))?;
          if name.as_str() == "__rust_alloc_zeroed" { ecx.write_bytes_ptr(p.into(), std::iter::repeat(0u8).take(size as usize))?; }
          ecx.write_pointer(p, dest)?;
        }
        "__rust_dealloc" => {
          let p = ecx.read_pointer(&args[0])?;
          let (size, align) = (usize_at(ecx, 1)?, usize_at(ecx, 2)?);
          ecx.deallocate_ptr(p, Some((Size::from_bytes(size), Align::from_bytes(align).unwrap())), MemoryKind::Machine(MiriMemoryKind::Rust))?;
        }
        "__rust_realloc" => {
          let p = ecx.read_pointer(&args[0])?;
          let (old, align, new) = (usize_at(ecx, 1)?, usize_at(ecx, 2)?, usize_at(ecx, 3)?);
          let align = Align::from_bytes(align).unwrap();
          let q = ecx.reallocate_ptr(p, Some((Size::from_bytes(old), align)), Size::from_bytes(new), align, MemoryKind::Machine(MiriMemoryKind::Rust))?;
          ecx.write_pointer(q, dest)?;
        }
        n => throw_unsup_format!("foreign function {n}"),
      }
      ecx.return_to_block(ret)?;
      return interp_ok(None);
    }
    interp_ok(Some((ecx.load_mir(instance.def, None)?, instance)))
  }
  fn call_extra_fn(_: &mut Cx<'tcx>, f: !, _: ExternAbi, _: &[FnArg<'tcx, Provenance>], _: &MPlaceTy<'tcx>, _: Option<mir::BasicBlock>, _: mir::UnwindAction) -> InterpResult<'tcx> { match f {} }
  fn call_intrinsic(ecx: &mut Cx<'tcx>, instance: Instance<'tcx>, args: &[OpTy<'tcx>], dest: &MPlaceTy<'tcx>, ret: Option<mir::BasicBlock>, _: mir::UnwindAction) -> InterpResult<'tcx, Option<Instance<'tcx>>> {
    if ecx.eval_intrinsic(instance, args, dest, ret)? { return interp_ok(None); }
    let tcx = *ecx.tcx;
    if tcx.item_name(instance.def_id()).as_str() == "volatile_load" {
      let place = ecx.deref_pointer(&args[0])?;
      ecx.copy_op(&place, dest)?;
      ecx.return_to_block(ret)?;
      return interp_ok(None);
    }
    if tcx.intrinsic(instance.def_id()).is_some_and(|i| i.must_be_overridden) { throw_unsup_format!("intrinsic {}", tcx.item_name(instance.def_id())); }
    interp_ok(Some(Instance { def: ty::InstanceKind::Item(instance.def_id()), args: instance.args }))
  }
  fn check_fn_target_features(_: &Cx<'tcx>, _: Instance<'tcx>) -> InterpResult<'tcx> { interp_ok(()) }
  fn assert_panic(_: &mut Cx<'tcx>, _: &mir::AssertMessage<'tcx>, _: mir::UnwindAction) -> InterpResult<'tcx> { throw_unsup_format!("panic") }
  fn panic_nounwind(_: &mut Cx<'tcx>, _: &str) -> InterpResult<'tcx> { throw_unsup_format!("panic") }
  fn unwind_terminate(_: &mut Cx<'tcx>, _: mir::UnwindTerminateReason) -> InterpResult<'tcx> { throw_unsup_format!("unwinding") }
  fn binary_ptr_op(ecx: &Cx<'tcx>, op: mir::BinOp, l: &ImmTy<'tcx>, r: &ImmTy<'tcx>) -> InterpResult<'tcx, ImmTy<'tcx>> {
    let tcx = *ecx.tcx;
    match op {
      mir::BinOp::Eq | mir::BinOp::Ne => {
        let (Immediate::Scalar(a), Immediate::Scalar(b)) = (**l, **r) else { throw_unsup_format!("comparison of wide pointers") };
        interp_ok(ImmTy::from_bool((a.to_target_usize(ecx)? == b.to_target_usize(ecx)?) == (op == mir::BinOp::Eq), tcx))
      }
      mir::BinOp::Offset => {
        let ptr = l.to_scalar().to_pointer(ecx)?;
        let pointee = ecx.layout_of(l.layout.ty.builtin_deref(true).unwrap())?;
        let n = if matches!(r.layout.ty.kind(), ty::Uint(_)) { r.to_scalar().to_target_usize(ecx)? as i64 } else { r.to_scalar().to_target_isize(ecx)? };
        let p = ecx.ptr_offset_inbounds(ptr, n * pointee.size.bytes() as i64)?;
        interp_ok(ImmTy::from_scalar(Scalar::from_maybe_pointer(p, ecx), l.layout))
      }
      _ => throw_unsup_format!("operation on pointers"),
    }
  }
  fn ub_checks(_: &Cx<'tcx>) -> InterpResult<'tcx, bool> { interp_ok(false) }
  fn extern_static_pointer(ecx: &Cx<'tcx>, _: DefId) -> InterpResult<'tcx, Pointer<Provenance>> { interp_ok(ecx.machine.shim.unwrap()) }
  fn ptr_from_addr_cast(_: &Cx<'tcx>, addr: u64) -> InterpResult<'tcx, Pointer<Option<Provenance>>> { interp_ok(Pointer::from_addr_invalid(addr)) }
  fn expose_provenance(_: &Cx<'tcx>, _: Provenance) -> InterpResult<'tcx> { interp_ok(()) }
  fn ptr_get_alloc(_: &Cx<'tcx>, ptr: Pointer<Provenance>, _: i64) -> Option<(AllocId, Size, ())> {
    let (prov, addr) = ptr.into_parts();
    Some((prov.0, Size::from_bytes(addr.bytes().wrapping_sub(base(prov.0).bytes())), ()))
  }
  fn adjust_global_allocation<'b>(ecx: &Cx<'tcx>, _: AllocId, alloc: &'b Allocation) -> InterpResult<'tcx, Cow<'b, Alloc<'tcx>>> {
    let a: InterpResult<'tcx, Allocation<Provenance, (), MiriAllocBytes>> = alloc.adjust_from_tcx(&ecx.tcx, |bytes, _| interp_ok(bytes.to_vec().into_boxed_slice()), |p: Pointer<CtfeProvenance>| ecx.global_root_pointer(p));
    interp_ok(Cow::Owned(a?.with_extra(Default::default())))
  }
  fn init_alloc_extra(_: &Cx<'tcx>, _: AllocId, _: Kind, _: Size, _: Align) -> InterpResult<'tcx, AllocExtra<'tcx>> { interp_ok(Default::default()) }
  fn adjust_alloc_root_pointer(_: &Cx<'tcx>, ptr: Pointer, _: Option<Kind>) -> InterpResult<'tcx, Pointer<Provenance>> {
    let (prov, offset) = ptr.into_parts();
    interp_ok(Pointer::new(Provenance(prov.alloc_id()), base(prov.alloc_id()) + offset))
  }
  fn init_frame(_: &mut Cx<'tcx>, frame: Frame<'tcx, Provenance>) -> InterpResult<'tcx, Frame<'tcx, Provenance, FrameExtra<'tcx>>> { interp_ok(frame.with_extra(Default::default())) }
  fn stack<'a>(ecx: &'a Cx<'tcx>) -> &'a [Frame<'tcx, Provenance, FrameExtra<'tcx>>] { &ecx.machine.stack }
  fn stack_mut<'a>(ecx: &'a mut Cx<'tcx>) -> &'a mut Vec<Frame<'tcx, Provenance, FrameExtra<'tcx>>> { &mut ecx.machine.stack }
  fn after_stack_pop(_: &mut Cx<'tcx>, _: Frame<'tcx, Provenance, FrameExtra<'tcx>>, _: bool) -> InterpResult<'tcx, ReturnAction> { interp_ok(ReturnAction::Normal) }
  fn get_global_alloc_salt(_: &Cx<'tcx>, _: Option<Instance<'tcx>>) -> usize { CTFE_ALLOC_SALT }
}
