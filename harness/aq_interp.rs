// The interpreter's traces: grouping of steps, abbreviated arrays, which locals are moved out of.
use super::*;
#[allow(unused_imports)] use rustc_middle::ty::layout::LayoutOf;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
#[allow(dead_code)] mod body { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_body.rs")); }
#[cfg(aquascope_stubs = "aq_interp")] mod stubs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/aq_stubs.rs")); }
use vs::*;
use super::super::mapper::group_steps;
use super::super::mvalue::Abbreviated;
use body::zeroed;
use rustc_middle::mir::{self, BasicBlock, CallSource, Rvalue, Statement, StatementKind, Terminator, TerminatorKind, UnwindAction};
use std::mem::ManuallyDrop;

fn range(n: usize) -> CharRange {
  let p = |c| rustc_utils::source_map::range::CharPos { line: n, column: c };
  CharRange { start: p(0), end: p(1), filename: rustc_utils::source_map::filename::FilenameIndex::from_usize(0) }
}
fn number(v: &MValue) -> usize { if let MValue::Uint(n) = v { *n as usize } else { usize::MAX } }

/// params: steps, frames, locations
#[no_mangle] pub extern "C-unwind" fn h_group() {
  let (n, frames, locs) = (pick(param(0, 3) as usize + 1, "steps"), param(1, 2) as usize, param(2, 3) as u8);
  // the abstract location of each location; 3: none
  let to: Vec<u8> = (0..locs).map(|_| below(4, "abstract location")).collect();
  let mut steps = vec![];
  let mut at = vec![];
  for s in 0..n {
    let k = pick(frames, "frames") + 1;
    let ls: Vec<u8> = (0..k).map(|_| below(locs, "location")).collect();
    steps.push(MStep {
      stack: MStack { frames: (0..k).map(|f| MFrame { name: ["a", "b", "c"][f].to_owned(), body_span: range(8 * s + f), location: ls[f], locals: vec![MLocal { name: String::new(), value: MValue::Uint((8 * s + f) as u64), moved_paths: vec![] }] }).collect() },
      heap: MHeap { locations: vec![MValue::Uint(s as u64)] },
    });
    at.push(ls);
  }
  let dead = any_bool("error");
  let result = if dead { MResult::Error(MUndefinedBehavior::PointerUseAfterFree { alloc_id: 7 }) } else { MResult::Success };
  let abs = |l: u8| { let mut r = 3; for i in 0..locs { if l == i { r = to[i as usize]; } } r };
  let Some(out) = catch(|| group_steps(MTrace { steps, result }, |l| { let a = abs(l); if a == 3 { None } else { Some(a) } })) else { return fail("any trace is grouped") };
  // the last step of each run of steps at one place; steps with an unknown location are not shown
  let known: Vec<bool> = at.iter().map(|ls| { let mut k = true; for l in ls { k &= abs(*l) != 3; } k }).collect();
  let here = |s: usize| abs(*at[s].last().unwrap());
  let mut count = 0;
  for s in 0..n {
    let mut shown = known[s];
    let mut later = false; // has a known step followed?
    for t in s + 1..n {
      shown &= !(known[t] & !later & (here(t) == here(s)));
      later |= known[t];
    }
    if shown {
      if count >= out.steps.len() { return fail("each run of steps at one place is shown by its last step, in order"); }
      let st = &out.steps[count];
      check(st.heap.locations.len() == 1 && number(&st.heap.locations[0]) == s, "each run of steps at one place is shown by its last step, in order");
      let fr = &st.stack.frames;
      check(fr.len() == at[s].len(), "a step is shown with all its frames");
      for f in 0..fr.len().min(at[s].len()) {
        check(fr[f].location == abs(at[s][f]), "a frame is at its abstract location");
        check(fr[f].locals.len() == 1 && number(&fr[f].locals[0].value) == 8 * s + f && fr[f].name == ["a", "b", "c"][f] && fr[f].body_span == range(8 * s + f), "a frame is shown with its locals");
      }
      count += 1;
    } else if known[s] { cover("merged") } else { cover("not shown") }
  }
  check(out.steps.len() == count, "each run of steps at one place is shown by its last step, in order");
  let same = match out.result { MResult::Success => !dead, MResult::Error(MUndefinedBehavior::PointerUseAfterFree { alloc_id }) => dead & (alloc_id == 7), _ => false };
  check(same, "the trace's result is kept");
  if count > 1 { cover("several"); }
}

/// params: length
#[no_mangle] pub extern "C-unwind" fn h_abbreviated() {
  let n = any(16, "length");
  assume(n <= param(0, 20));
  let x = any(16, "summand");
  let Some(a) = catch(|| Abbreviated::new(n, |i| interp_ok(i + x))) else { return fail("any array is read") };
  let Some(a) = a.report_err().ok() else { return fail("any array is read") };
  let a = if any_bool("converted") { a.map(|v| v ^ 1) } else { return shown(&a, n, x, 0) };
  shown(&a, n, x, 1)
}
fn shown(a: &Abbreviated<u64>, n: u64, x: u64, f: u64) {
  match a {
    Abbreviated::All(v) => {
      check(n <= 12, "more than 12 elements are abbreviated");
      check(v.len() as u64 == n, "all elements are shown");
      for (i, e) in v.iter().enumerate() { check(*e == (i as u64 + x) ^ f, "an element is shown where it is"); }
      cover("all");
    }
    Abbreviated::Only(v, last) => {
      check(n > 12, "up to 12 elements are all shown");
      check(v.len() == 11, "11 elements and the last one are shown");
      for (i, e) in v.iter().enumerate() { check(*e == (i as u64 + x) ^ f, "an element is shown where it is"); }
      check(**last == (n - 1 + x) ^ f, "the last element is shown");
      cover("abbreviated");
    }
  }
}

/// A frame about to execute the location of the body.
fn frame(b: &'static mir::Body<'static>, loc: Location) -> MiriFrame<'static> {
  type F = ManuallyDrop<MiriFrame<'static>>;
  let f: &'static mut F = zeroed();
  let p = f as *mut F as *mut u8;
  // the fields are private: found by what reads them
  let find = |size: usize, write: &dyn Fn(*mut u8), read: &dyn Fn(&F) -> bool| {
    let mut o = 0;
    while o + size <= std::mem::size_of::<F>() {
      let q = unsafe { p.add(o) };
      let old: Vec<u8> = (0..size).map(|i| unsafe { *q.add(i) }).collect();
      write(q);
      if read(unsafe { &*(p as *const F) }) { return; }
      for i in 0..size { unsafe { *q.add(i) = old[i]; } }
      o += 8;
    }
    panic!("no such field");
  };
  find(8, &|q| unsafe { *(q as *mut usize) = b as *const _ as usize }, &|f| f.body() as *const _ as usize == b as *const _ as usize);
  find(std::mem::size_of::<Either<Location, Span>>(), &|q| unsafe { *(q as *mut Either<Location, Span>) = Either::Left(loc) }, &|f| f.current_loc() == Either::Left(loc));
  ManuallyDrop::into_inner(unsafe { std::ptr::read(f) })
}
#[derive(Clone, Copy, PartialEq)]
enum Op { Move, Live, Dead, Copy, Nop, Call, Intrinsic, Return }
use Op::*;
/// params: operations, locals, frames
#[no_mangle] pub extern "C-unwind" fn h_moves() {
  let (n, locals, depth) = (param(0, 4) as usize, param(1, 2) as usize, param(2, 2) as usize);
  let ev: &'static mut ManuallyDrop<VisEvaluator<'static>> = zeroed();
  unsafe {
    std::ptr::write(&mut ev.ecx.machine.stack, vec![]);
    std::ptr::write(&mut ev.moved_places, RefCell::new(MovedPlaces::new()));
  }
  let here = Location { block: BasicBlock::from_usize(0), statement_index: 0 };
  // what has been moved out of, per frame; where its result goes
  let mut want: Vec<(Vec<bool>, Option<u8>)> = vec![(vec![false; locals], None)];
  for _ in 0..n {
    let ops: &[Op] = if want.len() > 1 && want.len() < depth { &[Move, Live, Dead, Copy, Call, Intrinsic, Return] } else if want.len() > 1 { &[Move, Live, Dead, Copy, Intrinsic, Return] } else { &[Move, Live, Dead, Copy, Call, Intrinsic] };
    let op = ops[pick(ops.len(), "operation")];
    let (to, from) = (below(locals as u8, "to"), below(locals as u8, "from"));
    // local 0 is the return place, and the body's own temporaries are of no interest
    let (t, f) = (body::place(to as usize + 1), body::place(from as usize + 1));
    let call = |d| TerminatorKind::Call { func: Operand::Copy(body::place(9)), args: Box::new([rustc_span::source_map::dummy_spanned(Operand::Move(f))]), destination: d, target: Some(BasicBlock::from_usize(0)), unwind: UnwindAction::Continue, call_source: CallSource::Normal, fn_span: rustc_span::DUMMY_SP };
    let statement = match op {
      Move => Some(StatementKind::Assign(Box::new((t, Rvalue::Use(Operand::Move(f)))))),
      Copy => Some(StatementKind::Assign(Box::new((t, Rvalue::Use(Operand::Copy(f)))))),
      Live => Some(StatementKind::StorageLive(t.local)),
      Dead => Some(StatementKind::StorageDead(t.local)),
      _ => None,
    };
    let b = body::body(&[body::Term { kind: body::Kind::Return, t: [0, 0], cleanup: false, len: 0 }], |_, _| body::info(rustc_span::DUMMY_SP, 0));
    let data = &mut b.basic_blocks.as_mut_preserves_cfg()[here.block];
    match statement {
      Some(kind) => data.statements = vec![Statement { source_info: body::info(rustc_span::DUMMY_SP, 0), kind }],
      None if op != Return => data.terminator = Some(Terminator { source_info: body::info(rustc_span::DUMMY_SP, 0), kind: call(t) }),
      None => {}
    }
    let stack = &mut ev.ecx.machine.stack;
    unsafe { stack.set_len(0) }
    for _ in 0..want.len() { stack.push(frame(b, here)); }
    let before = want.len();
    let moves = ev.collect_moves();
    // the step
    match op {
      Call => ev.ecx.machine.stack.push(frame(b, here)),
      Return => { std::mem::forget(ev.ecx.machine.stack.pop()); }
      _ => {}
    }
    if ev.handle_moves(before, moves).report_err().is_err() { return fail("any step is followed"); }
    let set = |w: &mut Vec<bool>, x: u8, v: bool| for l in 0..locals { w[l] = (w[l] & (l as u8 != x)) | (v & (l as u8 == x)); };
    let top = &mut want.last_mut().unwrap().0;
    match op {
      Move | Intrinsic => { set(top, from, true); set(top, to, false); }
      Copy | Live => set(top, to, false),
      Dead | Nop => {}
      Call => { want.push((vec![false; locals], Some(to))); cover("call"); }
      Return => {
        let (_, d) = want.pop().unwrap();
        set(&mut want.last_mut().unwrap().0, d.unwrap(), false);
        cover("return");
      }
    }
  }
  for (f, (w, _)) in want.iter().enumerate() {
    for l in 0..locals {
      let mut is = 0;
      for p in ev.moved_places.borrow().places_at(f) { if p.local.as_usize() == l + 1 && p.projection.is_empty() { is += 1; } }
      check((is == 1) == w[l] && is < 2, "a local is shown as moved if it was moved out of since it was assigned");
      if w[l] { cover("moved") } else { cover("not moved") }
    }
  }
}

/// params: operations, allocations
#[no_mangle] pub extern "C-unwind" fn h_dead() {
  let (n, allocs) = (param(0, 4) as usize, param(1, 3) as u8);
  let ev: &'static mut ManuallyDrop<VisEvaluator<'static>> = zeroed();
  unsafe { std::ptr::write(&mut ev.memory_map, RefCell::new(MemoryMap::default())); }
  let id = |a: u8| AllocId(std::num::NonZero::new(a as u64 + 1).unwrap());
  let mut seen: Vec<(u8, usize)> = vec![];
  for i in 0..=n {
    let a = below(allocs, "allocation");
    let k = if i == n {
      let kind = InterpErrorKind::UndefinedBehavior(UndefinedBehaviorInfo::PointerUseAfterFree(id(a), rustc_middle::mir::interpret::CheckInAllocMsg::MemoryAccessTest));
      // as the compiler's, whose constructor takes a backtrace
      struct Inner { #[allow(dead_code)] kind: InterpErrorKind<'static>, #[allow(dead_code)] backtrace: Option<Box<u64>> }
      let e: InterpErrorInfo<'static> = unsafe { std::mem::transmute(Box::new(Inner { kind, backtrace: None })) };
      match ev.beautify_error(e) { Ok(MUndefinedBehavior::PointerUseAfterFree { alloc_id }) => alloc_id, _ => return fail("a use after free is the result") }
    } else { ev.remap_alloc_id(id(a)) };
    for (b, j) in &seen {
      check((a == *b) == (k == *j), "a dead allocation has one number in all steps and the result");
      if a == *b { cover("again") } else { cover("another") }
    }
    seen.push((a, k));
    // the step ends
    if i < n && any_bool("next step") {
      ev.memory_map.borrow_mut().heap.locations.push(MValue::Uint(a as u64));
      let h = ev.build_heap();
      check(h.locations.len() == 1 && number(&h.locations[0]) == a as usize, "a step has its own heap");
      cover("next step");
    }
  }
  if !seen.is_empty() && seen.last().unwrap().1 > 0 { cover("second") }
}

/// What a type is made of. Sizes of integers are powers of two.
enum Shape { Int(u8), Struct, Tuple, Array(u64) }
struct Node { shape: Shape, children: Vec<Node>, offsets: Vec<u64>, order: Vec<usize>, size: u64, align: u64 }
impl Node {
  fn new(shape: Shape, children: Vec<Node>) -> Node {
    let mut n = Node { shape, children, offsets: vec![], order: vec![], size: 0, align: 1 };
    let up = |x: u64, a: u64| (x + a - 1) & !(a - 1);
    match n.shape {
      Shape::Int(log) => { n.size = 1 << log; n.align = n.size; }
      Shape::Array(k) => { n.size = n.children[0].size * k; n.align = n.children[0].align; }
      // as rustc_abi::layout: by descending alignment, or size if it is a multiple; a tuple's last field stays last
      _ => {
        let k = n.children.len();
        let end = if matches!(n.shape, Shape::Tuple) { k.saturating_sub(1) } else { k };
        let key = |c: &Node| { let m = if c.align > c.size { c.align } else { c.size }; m & m.wrapping_neg() };
        let mut order: Vec<usize> = vec![];
        for i in 0..end {
          let mut at = order.len();
          while at > 0 && key(&n.children[order[at - 1]]) < key(&n.children[i]) { at -= 1; }
          order.insert(at, i);
        }
        if end < k { order.push(end); }
        n.offsets = vec![0; k];
        n.order = order.clone();
        for i in order {
          let c = &n.children[i];
          n.size = up(n.size, c.align);
          n.offsets[i] = n.size;
          n.size += c.size;
          if c.align > n.align { n.align = c.align; }
        }
        n.align = concretize(n.align);
        n.size = concretize(up(n.size, n.align));
      }
    }
    n
  }
  fn unit(&self) -> bool { self.children.is_empty() && matches!(self.shape, Shape::Tuple) }
  fn child(&self, i: usize) -> (&Node, u64) { if let Shape::Array(_) = self.shape { (&self.children[0], self.children[0].size * i as u64) } else { (&self.children[i], self.offsets[i]) } }
  /// Source text: its type, given the structs so far, and a value.
  fn text(&self, structs: &mut String, count: &mut usize) -> (String, String) {
    let cs: Vec<_> = self.children.iter().map(|c| c.text(structs, count)).collect();
    match self.shape {
      Shape::Int(log) => { let t = ["u8", "u16", "u32", "u64"][log as usize]; (t.to_owned(), format!("1{t}")) }
      Shape::Array(k) => (format!("[{}; {k}]", cs[0].0), format!("[{}]", vec![cs[0].1.clone(); k as usize].join(", "))),
      Shape::Tuple => { let j = |f: &dyn Fn(&(String, String)) -> String| cs.iter().map(|c| f(c) + ",").collect::<String>(); (format!("({})", j(&|c| c.0.clone())), format!("({})", j(&|c| c.1.clone()))) }
      Shape::Struct => {
        let n = format!("S{count}");
        *count += 1;
        *structs += &format!("struct {n} {{ {} }}\n", cs.iter().enumerate().map(|(i, c)| format!("f{i}: {}, ", c.0)).collect::<String>());
        let v = format!("{n} {{ {} }}", cs.iter().enumerate().map(|(i, c)| format!("f{i}: {}, ", c.1)).collect::<String>());
        (n, v)
      }
    }
  }
}
fn any_node(depth: usize, fields: usize, units: bool) -> Node {
  let k = pick(if depth == 0 { 1 } else { 4 }, "type");
  match k {
    0 => Node::new(Shape::Int(below(4, "size")), vec![]),
    3 => { let c = any_node(depth - 1, fields, units); Node::new(Shape::Array(2), vec![c]) }
    _ => {
      let cs = (0..fields).map(|_| if units && any_bool("unit") { Node::new(Shape::Tuple, vec![]) } else { any_node(depth - 1, 2, false) }).collect();
      Node::new(if k == 1 { Shape::Struct } else { Shape::Tuple }, cs)
    }
  }
}
static mut LAYOUTS: Vec<(usize, Vec<TyAndLayout<'static>>)> = vec![];
type Data = rustc_abi::LayoutData<rustc_abi::FieldIdx, rustc_abi::VariantIdx>;
/// The type and layout, as the compiler would have them.
fn layout(n: &Node) -> TyAndLayout<'static> {
  use rustc_middle::ty::{AdtDefData, Const, List, TyKind, UintTy};
  let cs: Vec<_> = n.children.iter().map(layout).collect();
  let kind = match n.shape {
    Shape::Int(_) => TyKind::Uint(UintTy::U8),
    Shape::Struct => TyKind::Adt(unsafe { std::mem::transmute::<&AdtDefData, _>(zeroed()) }, List::empty()),
    Shape::Tuple => TyKind::Tuple(List::empty()),
    Shape::Array(_) => TyKind::Array(cs[0].ty, unsafe { std::mem::transmute::<&u128, Const<'static>>(zeroed()) }),
  };
  let w: &'static mut rustc_type_ir::WithCachedTypeInfo<TyKind<'static>> = zeroed();
  let d: &'static mut Data = zeroed();
  let size = |b: u64| Size::from_bytes(b);
  unsafe {
    std::ptr::write(&mut w.internee, kind);
    d.size = size(n.size);
    d.align = rustc_abi::AbiAndPrefAlign::new(rustc_abi::Align::from_bytes(n.align).unwrap());
    std::ptr::write(&mut d.variants, rustc_abi::Variants::Single { index: rustc_abi::VariantIdx::from_u32(0) });
    d.backend_repr = rustc_abi::BackendRepr::Memory { sized: true };
    std::ptr::write(&mut d.fields, match n.shape {
      Shape::Int(_) => FieldsShape::Primitive,
      Shape::Array(k) => FieldsShape::Array { stride: size(n.children[0].size), count: k },
      _ => FieldsShape::Arbitrary { offsets: n.offsets.iter().map(|o| size(*o)).collect(), memory_index: (0..n.order.len()).map(|i| n.order.iter().position(|o| *o == i).unwrap() as u32).collect() },
    });
    let ty: rustc_middle::ty::Ty<'static> = std::mem::transmute(&*w);
    #[allow(static_mut_refs)] LAYOUTS.push((&*w as *const _ as usize, cs));
    TyAndLayout { ty, layout: std::mem::transmute(&*d) }
  }
}
#[no_mangle] fn vstub_layout_field(this: TyAndLayout<'static>, _: usize, i: usize) -> TyAndLayout<'static> {
  let t: usize = unsafe { std::mem::transmute(this.ty) };
  #[allow(static_mut_refs)] let l = unsafe { LAYOUTS.iter() }.find(|l| l.0 == t).expect("a type of the harness");
  l.1[if l.1.len() == 1 { 0 } else { i }]
}
#[no_mangle] #[inline(never)] pub extern "C-unwind" fn vx_native() -> bool { true }

/// What the last step of a program's trace that shows the local (or e) has for it, as the value's text. None: no trace.
fn run(program: &str, local: &str, last: bool) -> Option<Option<String>> {
  let dir = std::env::current_dir().unwrap();
  let file = dir.join("main.rs");
  std::fs::write(&file, program).unwrap();
  let lib = std::env::var("LD_LIBRARY_PATH").unwrap();
  let args: Vec<String> = ["rustc", file.to_str().unwrap(), "--edition=2021", "-Zidentify-regions", "-Zmir-opt-level=0", "-Zmaximal-hir-to-mir-coverage", "-Awarnings", "--crate-type", "bin", "--sysroot", std::path::Path::new(&lib).parent().unwrap().to_str().unwrap()].iter().map(|s| s.to_string()).collect();
  let mut c = super::super::InterpretCallbacks::new(false);
  let r = rustc_driver::catch_fatal_errors(|| rustc_driver::RunCompiler::new(&args, &mut c).run());
  if r.is_err() { return None; }
  let t = match c.result? { Ok(t) => t, Err(e) => { println!("no trace: {e}"); return None; } };
  let mut out = None;
  for s in &t.steps {
    if last && s.stack.frames.iter().any(|f| f.locals.iter().any(|l| l.name == "e")) { out = None; }
    for f in &s.stack.frames { for l in &f.locals { if l.name == local { out = Some(format!("{:?}", l.value)); } } }
  }
  Some(out)
}
/// The segments of a shown pointer's path, and what its memory is.
fn parse(v: &str) -> Option<(String, Vec<MPathSegment>)> {
  let a = v.find("segment: ")? + 9;
  let b = v.find(", parts: [")?;
  let mut parts = vec![];
  let mut rest = &v[b + 10..];
  while !rest.starts_with(']') {
    rest = rest.trim_start_matches(", ");
    let (o, c) = (rest.find('(')?, rest.find(')')?);
    let ns: Vec<usize> = rest[o + 1..c].split(", ").map(|x| x.parse().unwrap()).collect();
    parts.push(match &rest[..o] { "Field" => MPathSegment::Field(ns[0]), "Index" => MPathSegment::Index(ns[0]), _ => MPathSegment::Subslice(ns[0], ns[1]) });
    rest = &rest[c + 1..];
  }
  Some((v[a..b].to_owned(), parts))
}

/// params: depth, fields, fields of size zero, elements on the heap
#[no_mangle] pub extern "C-unwind" fn h_path() {
  let (depth, fields, units, heap) = (param(0, 1) as usize, param(1, 3) as usize, param(2, 0) == 1, param(3, 0) as usize);
  let root = any_node(depth, fields, units);
  // what is pointed to
  let (mut node, mut target, mut text) = (&root, 0, String::new());
  let index = if heap > 0 { pick(heap, "element") } else { 0 };
  let slice = heap > 0 && any_bool("slice");
  loop {
    let k = match node.shape { Shape::Int(_) => 0, Shape::Array(k) => k as usize, _ => node.children.len() };
    let i = if slice { k } else { pick(k + 1, "part") };
    if i == k { break; }
    text += &match node.shape { Shape::Array(_) => format!("[{i}]"), Shape::Struct => format!(".f{i}"), _ => format!(".{i}") };
    let (c, o) = node.child(i);
    if c.unit() { return; }
    node = c;
    target += o;
  }
  if root.size == 0 { return; }
  let end = if heap > 0 { pick(heap - index, "end") + index + 1 } else { 0 };
  let native = vx_native();
  let parts = if native {
    let (mut structs, mut count) = (String::new(), 0);
    let (t, v) = root.text(&mut structs, &mut count);
    let value = if heap > 0 { format!("let x: Vec<{t}> = vec![{}]; let r = &x[{}]{text};", vec![v; heap].join(", "), if slice { format!("{index}..{end}") } else { index.to_string() }) } else { format!("let x: {t} = {v}; let r = &x{text};") };
    let Some(v) = catch(|| run(&format!("{structs}fn main() {{ {value} let e = 1; }}"), "r", false)).flatten().flatten() else { return fail("a pointer into any value is shown") };
    println!("{v}");
    let Some((m, parts)) = parse(&v) else { return fail("a pointer into any value is shown") };
    check(m == if heap > 0 { "Heap { index: 0 }" } else { "Stack { frame: 0, local: \"x\" }" }, "a pointer leads to the memory it points into");
    parts
  } else {
    let ev: &'static mut ManuallyDrop<VisEvaluator<'static>> = zeroed();
    let l = layout(&root);
    let m: &'static mut ManuallyDrop<miri::MPlaceTy<'static>> = zeroed();
    place_meta(m, if slice { Some((end - index) as u64) } else { None });
    let m = ManuallyDrop::into_inner(m.clone());
    let at = Size::from_bytes(root.size * index as u64 + target);
    let Some(p) = catch(|| super::super::miri_utils::locate_address_in_type(&ev.ecx, l, heap > 0, m, at)) else { return fail("a pointer into any value is shown") };
    p.into_iter().map(|e| ev.place_elem_to_path_segment(e)).collect()
  };
  // where the path leads
  let mut parts = &parts[..];
  if heap > 0 {
    let first = parts.first().cloned();
    if slice {
      check(first == Some(MPathSegment::Subslice(index, end - 1)), "a slice's path has its first and last element");
      cover("slice");
      return check(parts.len() == 1, "a slice's path has its first and last element");
    }
    check(first == Some(MPathSegment::Index(index)), "a pointer into a vector has the element's index");
    if first.is_none() { return; }
    parts = &parts[1..];
  }
  let (mut here, mut at) = (&root, 0);
  for p in parts {
    let i = match (p, &here.shape) {
      (MPathSegment::Field(k), Shape::Struct) => here.children.iter().enumerate().filter(|c| !c.1.unit()).nth(*k).map(|c| c.0),
      (MPathSegment::Field(k), Shape::Tuple) => Some(*k).filter(|k| *k < here.children.len()),
      (MPathSegment::Index(k), Shape::Array(n)) => Some(*k).filter(|k| (*k as u64) < *n),
      _ => None,
    };
    let Some(i) = i else { return fail("a pointer's path leads to what it points to") };
    let (c, o) = here.child(i);
    here = c;
    at += o;
    cover("within");
  }
  check((at == target) & (here.size >= node.size), "a pointer's path leads to what it points to");
  if parts.is_empty() { cover("whole"); }
}
/// The metadata of a place is private: found by what reads it.
fn place_meta(m: &mut ManuallyDrop<miri::MPlaceTy<'static>>, len: Option<u64>) {
  use miri::{MemPlaceMeta, Projectable};
  type Meta = MemPlaceMeta<miri::Provenance>;
  let meta: Meta = len.map_or(MemPlaceMeta::None, |n| MemPlaceMeta::Meta(rustc_const_eval::interpret::Scalar::from_u64(n)));
  let size = std::mem::size_of::<Meta>();
  let p = m as *mut _ as *mut u8;
  for o in 0..=(std::mem::size_of::<miri::MPlaceTy<'static>>() - size) / 8 {
    let q = unsafe { p.add(8 * o) };
    let old: Vec<u8> = (0..size).map(|i| unsafe { *q.add(i) }).collect();
    // first with a value that is certainly not there
    unsafe { *(q as *mut Meta) = MemPlaceMeta::Meta(rustc_const_eval::interpret::Scalar::from_u64(0x5a5a5a5a)); }
    let found = match Projectable::meta(&**m) { MemPlaceMeta::Meta(s) => s == rustc_const_eval::interpret::Scalar::from_u64(0x5a5a5a5a), _ => false };
    if found { unsafe { *(q as *mut Meta) = meta; } return; }
    for i in 0..size { unsafe { *q.add(i) = old[i]; } }
  }
  panic!("no such field");
}

/// Which bytes are initialized.
static mut MASK: Vec<bool> = vec![];
fn set_init(range: AllocRange) {
  #[allow(static_mut_refs)] for i in 0..range.size.bytes() { unsafe { MASK[(range.start.bytes() + i) as usize] = true } }
}
#[no_mangle] fn vstub_is_init(_: usize, range: AllocRange) -> Result<(), AllocRange> {
  let mut all = true;
  #[allow(static_mut_refs)] for i in 0..range.size.bytes() { all &= unsafe { MASK[(range.start.bytes() + i) as usize] } }
  if all { Ok(()) } else { Err(range) }
}
fn leaves(n: &Node, at: u64, text: String, out: &mut Vec<(u64, u64, String)>) {
  let k = match n.shape { Shape::Int(_) => return out.push((at, n.size, text)), Shape::Array(k) => k as usize, _ => n.children.len() };
  for i in 0..k {
    let t = match n.shape { Shape::Array(_) => format!("{text}[{i}]"), Shape::Struct => format!("{text}.f{i}"), _ => format!("{text}.{i}") };
    let (c, o) = n.child(i);
    leaves(c, at + o, t, out);
  }
}
/// params: depth, fields, fields of size zero
#[no_mangle] pub extern "C-unwind" fn h_init() {
  let (depth, fields, units) = (param(0, 1) as usize, param(1, 3) as usize, param(2, 0) == 1);
  let root = any_node(depth, fields, units);
  if root.size == 0 { return; }
  let mut ls = vec![];
  leaves(&root, 0, String::new(), &mut ls);
  let written: Vec<bool> = ls.iter().map(|_| any_bool("written")).collect();
  let mut all = true;
  for w in &written { all &= *w; }
  let shown = if vx_native() {
    let (mut structs, mut count) = (String::new(), 0);
    let (t, v) = root.text(&mut structs, &mut count);
    let writes: String = ls.iter().zip(&written).filter(|w| *w.1).map(|(l, _)| format!("x{} = 1; ", l.2)).collect();
    match catch(|| run(&format!("{structs}fn main() {{ let mut x: {t} = {v}; unsafe {{ std::ptr::copy_nonoverlapping(std::mem::MaybeUninit::<{t}>::uninit().as_ptr(), &raw mut x, 1) }}; {writes}let e = 1; let g = e; }}"), "x", true)).flatten() { Some(v) => { println!("{v:?}"); v.is_some() } None => return fail("any value is shown or not") }
  } else {
    type A = miri::Allocation<miri::Provenance, miri::AllocExtra<'static>, miri::MiriAllocBytes>;
    let a: &'static mut ManuallyDrop<A> = zeroed();
    let n = concretize(root.size);
    // the bytes are private: found by what reads them
    let (p, bytes): (*mut u8, &'static [u8]) = (a as *mut _ as *mut u8, vec![0; n as usize].leak());
    let mut o = 0;
    while a.size().bytes() != n {
      let q = unsafe { &mut *(p.add(o) as *mut [usize; 2]) };
      let old = *q;
      unsafe { *(q as *mut _ as *mut &'static [u8]) = bytes; }
      if a.size().bytes() != n { *q = old; }
      o += 8;
    }
    #[allow(static_mut_refs)] unsafe { MASK = vec![false; n as usize]; }
    for (l, w) in ls.iter().zip(&written) { if *w { let r = AllocRange { start: Size::from_bytes(concretize(l.0)), size: Size::from_bytes(concretize(l.1)) }; set_init(r) } }
    let ev: &'static mut ManuallyDrop<VisEvaluator<'static>> = zeroed();
    let l = layout(&root);
    match catch(|| ev.mem_is_initialized(l, a)) { Some(b) => b, None => return fail("any value is shown or not") }
  };
  check(shown == all, "a value is shown once all of it is written");
  if shown { cover("shown") } else { cover("hidden") }
}
