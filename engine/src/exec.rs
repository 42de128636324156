//! The symbolic executor: depth-first over forked states, with the solver deciding every symbolic branch.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Solver};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

const HEAP: u64 = 0x10_0000_0000;
const STACK: u64 = 0x7000_0000_0000;

pub struct Model { vals: Vec<u128>, memo: RefCell<FxMap<Eid, u128>> }
impl Model { fn new(vals: Vec<u128>) -> Rc<Self> { Rc::new(Model { vals, memo: Default::default() }) } }

#[derive(Clone)]
struct Frame { f: Rc<Func>, regs: Vec<V>, blk: u32, ip: u32, prev: u32, sp: u64, dst: Option<u32>, normal: Option<u32>, catch: bool }

#[derive(Clone)]
pub struct State {
  frames: Vec<Frame>,
  mem: Mem,
  sp: u64,
  heap: u64,
  pc: Vec<Eid>,
  model: Rc<Model>,
  inputs: Vec<(Eid, Rc<str>)>,
  known: Rc<FxMap<Eid, u128>>,
  /// Values left by the path condition for variables of at most 8 bits.
  dom: Rc<FxMap<Eid, Set256>>,
  /// Variables that occur together with another one in some path constraint.
  tied: Rc<FxMap<Eid, ()>>,
  insts: u64,
  notes: Vec<(Rc<str>, V)>,
  covers: Vec<Rc<str>>,
}

#[repr(C)]
pub struct Shared {
  pub active: AtomicI64, pub stop: AtomicU64,
  pub paths: AtomicU64, pub pruned: AtomicU64, pub insts: AtomicU64, pub asserts: AtomicU64, pub asserts_sym: AtomicU64, pub forks: AtomicU64,
  pub small: AtomicU64, pub cached: AtomicU64, pub queries: AtomicU64, pub sat: AtomicU64, pub unsat: AtomicU64, pub unknown: AtomicU64, pub nanos: AtomicU64,
  pub errors: AtomicU64, pub procs: AtomicU64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sp {
  Any, Assume, Assert, Cover, Pick, Conc, IsSym, Param, Catch, Note, Fail,
  Alloc, AllocZ, Realloc, Free, Malloc, Calloc, PosixMemalign,
  Memcpy, Memset, Memcmp, Strlen, Memchr,
  Panic, RetZero, RetOne, Nop, RandomKeys, Errno, WriteLen, Abort, PthreadKey, Tls,
  LLife, LAssume, LUmax, LUmin, LSmax, LSmin, LUaddO, LUsubO, LUmulO, LSaddO, LSsubO, LSmulO, LFshl, LFshr, LCttz, LCtlz, LCtpop, LBswap, LBitrev, LUaddS, LUsubS, LSaddS, LSsubS,
  LAbs, LExpect, LIsConst, LLoadRel, LMovmsk, LReduce(u8), LScmp, LUcmp, Unk,
}

#[derive(Clone)]
pub struct Violation { pub id: String, pub kind: String, pub inputs: Vec<(String, u16, u128)>, pub notes: Vec<(String, u128)>, pub stack: Vec<String> }

pub struct Cfg { pub params: Vec<u64>, pub max_inst: u64, pub deadline: std::time::Instant, pub jobs: i64, pub trace: bool, pub outdir: String, pub stop_first: bool, pub hang: bool, pub stubs: Vec<(String, String)>, pub nops: Vec<String> }

pub struct Engine<'m> {
  m: &'m Module,
  pub ar: Arena,
  pub solver: Solver,
  code: Vec<Option<Rc<Func>>>,
  sp_of: Vec<Option<Sp>>,
  stack: Vec<State>,
  varcache: FxMap<(usize, u16), Eid>,
  pub cfg: Cfg,
  pub viol: BTreeMap<String, Violation>,
  pub covers: BTreeMap<String, Vec<(String, u16, u128)>>,
  pub errors: BTreeSet<String>,
  pub executed: BTreeSet<String>,
  pub sh: &'static Shared,
  is_child: bool,
  children: Vec<i32>,
  redirect: FxMap<u32, u32>,
  cvars: FxMap<Eid, Rc<[u32]>>,
  qcache: FxMap<Vec<Eid>, Option<Rc<Vec<(usize, u128)>>>>,
}

enum Flow { Next, End, Retry }

extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }

fn special(n: &str) -> Option<Sp> {
  use Sp::*;
  if let Some(r) = n.strip_prefix("llvm.") {
    let p = |s: &str| r.starts_with(s);
    return Some(
      if p("lifetime") || p("experimental.noalias") || p("dbg") || p("invariant") || p("donothing") || p("prefetch") || p("x86.sse2.pause") { LLife }
      else if p("assume") { LAssume }
      else if p("memcpy") || p("memmove") { Memcpy } else if p("memset") { Memset }
      else if p("umax") { LUmax } else if p("umin") { LUmin } else if p("smax") { LSmax } else if p("smin") { LSmin }
      else if p("uadd.with") { LUaddO } else if p("usub.with") { LUsubO } else if p("umul.with") { LUmulO }
      else if p("sadd.with") { LSaddO } else if p("ssub.with") { LSsubO } else if p("smul.with") { LSmulO }
      else if p("fshl") { LFshl } else if p("fshr") { LFshr } else if p("cttz") { LCttz } else if p("ctlz") { LCtlz }
      else if p("ctpop") { LCtpop } else if p("bswap") { LBswap } else if p("bitreverse") { LBitrev }
      else if p("uadd.sat") { LUaddS } else if p("usub.sat") { LUsubS } else if p("sadd.sat") { LSaddS } else if p("ssub.sat") { LSsubS }
      else if p("abs") { LAbs } else if p("expect") { LExpect } else if p("is.constant") { LIsConst } else if p("load.relative") { LLoadRel }
      else if p("x86.sse2.pmovmskb.128") { LMovmsk } else if p("threadlocal.address") { Tls } else if p("trap") { Abort }
      else if p("scmp") { LScmp } else if p("ucmp") { LUcmp }
      else if p("vector.reduce.add") { LReduce(0) } else if p("vector.reduce.or") { LReduce(1) } else if p("vector.reduce.and") { LReduce(2) }
      else if p("vector.reduce.umax") { LReduce(3) } else if p("vector.reduce.xor") { LReduce(4) }
      else { Unk });
  }
  Some(match n {
    "vs_any" => Any, "vs_assume" => Assume, "vs_assert" => Assert, "vs_cover" => Cover, "vs_pick" => Pick, "vs_concretize" => Conc,
    "vs_is_symbolic" => IsSym, "vs_param" => Param, "vs_catch" => Catch, "vs_note" => Note, "vs_fail" => Fail,
    "__rust_alloc" | "__rdl_alloc" => Alloc, "__rust_alloc_zeroed" | "__rdl_alloc_zeroed" => AllocZ,
    "__rust_realloc" | "__rdl_realloc" => Realloc, "__rust_dealloc" | "__rdl_dealloc" | "free" => Free,
    "malloc" => Malloc, "calloc" => Calloc, "posix_memalign" => PosixMemalign,
    "memcpy" | "memmove" => Memcpy, "memset" => Memset, "memcmp" | "bcmp" => Memcmp, "strlen" => Strlen, "memchr" => Memchr,
    "abort" | "__rust_start_panic" | "rust_begin_unwind" | "__rust_alloc_error_handler" => Panic,
    "getenv" | "pthread_setspecific" | "pthread_getspecific" | "syscall" | "__cxa_thread_atexit_impl" | "pthread_self" | "gettid" | "sched_yield" | "close" | "isatty" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_trylock" | "pthread_mutex_destroy" => RetZero,
    "pthread_key_create" => PthreadKey,
    "__errno_location" => Errno, "write" => WriteLen,
    _ => {
      if n.contains("4core9panicking") || n.contains("3std9panicking11begin_panic") || n.contains("20rust_panic_with_hook") || n.contains("10rust_panic17h")
        || n.contains("16slice_error_fail") || n.contains("7raw_vec12handle_error") || n.contains("18handle_alloc_error") || n.contains("4core6result13unwrap_failed")
        || n.contains("4core6option13unwrap_failed") || n.contains("4core6option13expect_failed") { Panic }
      else if n.contains("19hashmap_random_keys") { RandomKeys }
      else if n.contains("3std3sys12thread_local11destructors") && n.contains("8register") { Nop }
      else { return None }
    }
  })
}

fn vof(ar: &Arena, e: Eid) -> V { match ar.cv(e) { Some(v) => kint(v, 128), None => V::S(e) } }

impl<'m> Engine<'m> {
  pub fn new(m: &'m Module, cfg: Cfg, sh: &'static Shared, timeout_ms: u32) -> Self {
    let mut redirect: FxMap<u32, u32> = Default::default();
    let mut sp_of: Vec<Option<Sp>> = m.fns.iter().map(|f| special(&f.name)).collect();
    for (pat, stub) in &cfg.stubs {
      let t = m.fn_id(stub);
      // ?pattern: only functions without a body
      let (pat, bodyless) = match pat.strip_prefix('?') { Some(p) => (p, true), None => (pat.as_str(), false) };
      for (i, f) in m.fns.iter().enumerate() {
        if f.name.contains(pat) && !f.name.starts_with("vstub_") && !(bodyless && f.body.is_some()) {
          if let Some(t) = t { redirect.insert(i as u32, t); sp_of[i] = None; }
        }
      }
    }
    for pat in &cfg.nops { for (i, f) in m.fns.iter().enumerate() { if f.name.contains(pat.as_str()) { sp_of[i] = Some(Sp::Nop); } } }
    Engine { m, ar: Arena::new(), solver: Solver::new(timeout_ms), code: m.fns.iter().map(|_| None).collect(), sp_of, stack: vec![], varcache: Default::default(),
      cfg, viol: Default::default(), covers: Default::default(), errors: Default::default(), executed: Default::default(), sh, is_child: false, children: vec![], redirect, cvars: Default::default(), qcache: Default::default() }
  }
  fn func(&mut self, id: u32) -> Rc<Func> {
    if let Some(f) = &self.code[id as usize] { return f.clone(); }
    let f = Rc::new(self.m.parse_fn(id));
    self.executed.insert(self.m.fns[id as usize].name.clone());
    self.code[id as usize] = Some(f.clone());
    f
  }
  fn err(&mut self, st: &State, e: String) {
    let bt: Vec<String> = st.frames.iter().rev().take(12).map(|f| self.m.fns[f.f.id as usize].name.clone()).collect();
    if self.errors.len() < 20 { self.errors.insert(format!("{e} [in {}]", bt.join(" < "))); }
    self.sh.errors.fetch_add(1, SeqCst);
  }

  pub fn run_entry(&mut self, entry: &str) -> Result<(), String> {
    let id = self.m.fn_id(entry).ok_or_else(|| format!("no entry {entry}"))?;
    if self.m.fns[id as usize].body.is_none() { return Err(format!("entry {entry} has no body")); }
    let f = self.func(id);
    let mut mem = Mem::new();
    for g in &self.m.globals { if let Some(v) = self.m.init_of(g) { init_mem(&mut mem, g.addr, &g.ty, &v); } }
    let st = State { frames: vec![Frame { regs: vec![V::C(0); f.nregs as usize], f, blk: 0, ip: 0, prev: 0, sp: STACK, dst: None, normal: None, catch: false }],
      mem, sp: STACK, heap: HEAP, pc: vec![], model: Model::new(vec![]), inputs: vec![], known: Default::default(), dom: Default::default(), tied: Default::default(), insts: 0, notes: vec![], covers: vec![] };
    self.stack.push(st);
    self.drain();
    Ok(())
  }
  fn drain(&mut self) {
    while let Some(st) = self.stack.pop() {
      if self.sh.stop.load(SeqCst) != 0 { self.stack.clear(); break; }
      if std::time::Instant::now() > self.cfg.deadline {
        self.errors.insert("time limit reached: exploration incomplete".into());
        self.sh.errors.fetch_add(1, SeqCst);
        self.sh.stop.store(1, SeqCst);
        self.stack.clear();
        break;
      }
      self.run(st);
    }
    let s = self.sh;
    s.queries.fetch_add(self.solver.queries, SeqCst);
    s.sat.fetch_add(self.solver.sat, SeqCst);
    s.unsat.fetch_add(self.solver.unsat, SeqCst);
    s.unknown.fetch_add(self.solver.unknown, SeqCst);
    s.nanos.fetch_add(self.solver.nanos, SeqCst);
    s.active.fetch_sub(1, SeqCst);
    for c in std::mem::take(&mut self.children) {
      let mut stt = 0;
      unsafe { waitpid(c, &mut stt, 0); }
      if stt != 0 {
        self.errors.insert(format!("worker process died (status {stt})"));
        s.errors.fetch_add(1, SeqCst);
      }
    }
    self.dump_part();
    if self.is_child { unsafe { _exit(0) } }
  }
  fn dump_part(&self) {
    let mut o = String::new();
    for v in self.viol.values() {
      o.push_str(&format!("{{\"t\":\"viol\",\"id\":{},\"kind\":{},\"inputs\":{},\"notes\":{},\"stack\":{}}}\n", js(&v.id), js(&v.kind), jin(&v.inputs),
        format!("[{}]", v.notes.iter().map(|(n, v)| format!("[{},{}]", js(n), v)).collect::<Vec<_>>().join(",")),
        format!("[{}]", v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))));
    }
    for (c, i) in &self.covers { o.push_str(&format!("{{\"t\":\"cover\",\"id\":{},\"inputs\":{}}}\n", js(c), jin(i))); }
    for e in &self.errors { o.push_str(&format!("{{\"t\":\"error\",\"msg\":{}}}\n", js(e))); }
    for e in &self.executed { o.push_str(&format!("{{\"t\":\"fn\",\"name\":{}}}\n", js(e))); }
    std::fs::write(format!("{}/part.{}", self.cfg.outdir, std::process::id()), o).expect("write part");
  }
  /// Hand half of the pending states to a new worker process. True in the child.
  fn split(&mut self) -> bool {
    let n = self.stack.len();
    if n == 0 || self.cfg.jobs <= 1 { return false; }
    let s = self.sh;
    let a = s.active.load(SeqCst);
    if a >= self.cfg.jobs || s.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_err() { return false; }
    let pid = unsafe { fork() };
    if pid < 0 { s.active.fetch_sub(1, SeqCst); return false; }
    let k = (n + 1) / 2;
    if pid == 0 {
      self.stack.truncate(k);
      self.is_child = true;
      self.children.clear();
      self.viol.clear(); self.errors.clear(); self.covers.clear(); self.executed.clear();
      let so = &mut self.solver;
      so.queries = 0; so.sat = 0; so.unsat = 0; so.unknown = 0; so.nanos = 0;
      s.procs.fetch_add(1, SeqCst);
      true
    } else {
      self.stack.drain(..k);
      self.children.push(pid);
      false
    }
  }

  // ---- values ----
  #[inline] fn get(st: &State, o: &Opn) -> V { match o { Opn::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opn::K(v) => v.clone() } }
  fn eid(&mut self, v: &V, w: u32) -> Eid {
    match v { V::C(x) => self.ar.konst(*x as u128, w as u16), V::W(x) => self.ar.konst(**x, w as u16),
      V::S(e) => { debug_assert_eq!(self.ar.w(*e) as u32, w); *e } V::A(_) => panic!("aggregate as scalar") }
  }
  fn c128(v: &V) -> Option<u128> { match v { V::C(x) => Some(*x as u128), V::W(x) => Some(**x), _ => None } }
  fn binv(&mut self, op: BinOp, t: &Ty, a: &V, b: &V) -> V {
    if let Ty::Vec(_, et) = t {
      let (V::A(x), V::A(y)) = (a, b) else { panic!() };
      return V::A(x.iter().zip(y.iter()).map(|(p, q)| self.binv(op, et, p, q)).collect());
    }
    let w = t.bits();
    if let (V::C(x), V::C(y)) = (a, b) {
      if w <= 64 {
        let (x, y) = (*x, *y);
        let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
        match op {
          BinOp::Add => return V::C(x.wrapping_add(y) & m),
          BinOp::Sub => return V::C(x.wrapping_sub(y) & m),
          BinOp::Mul => return V::C(x.wrapping_mul(y) & m),
          BinOp::And => return V::C(x & y),
          BinOp::Or => return V::C(x | y),
          BinOp::Xor => return V::C(x ^ y),
          BinOp::Shl => return V::C(if y >= w as u64 { 0 } else { (x << y) & m }),
          BinOp::LShr => return V::C(if y >= w as u64 { 0 } else { x >> y }),
          _ => {}
        }
      }
    }
    let o = match op {
      BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv,
      BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr,
      BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor,
      _ => {
        let (Some(x), Some(y)) = (Self::c128(a), Self::c128(b)) else { panic!("symbolic float") };
        let f = |x: f64, y: f64| match op { BinOp::FAdd => x + y, BinOp::FSub => x - y, BinOp::FMul => x * y, BinOp::FDiv => x / y, _ => x % y };
        return if w == 64 { V::C(f(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits()) }
          else { V::C((f(f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) as f32).to_bits() as u64) };
      }
    };
    if let (Some(x), Some(y)) = (Self::c128(a), Self::c128(b)) { return kint(eval_bin(o, w as u16, x, y), w); }
    let (x, y) = (self.eid(a, w), self.eid(b, w));
    let e = self.ar.bin(o, x, y);
    vof(&self.ar, e)
  }
  fn cmpv(&mut self, p: Pred, t: &Ty, a: &V, b: &V) -> V {
    if let Ty::Vec(_, et) = t {
      let (V::A(x), V::A(y)) = (a, b) else { panic!() };
      return V::A(x.iter().zip(y.iter()).map(|(u, v)| self.cmpv(p, et, u, v)).collect());
    }
    let w = t.bits();
    if let Pred::Fp(k) = p {
      let (Some(x), Some(y)) = (Self::c128(a), Self::c128(b)) else { panic!("symbolic float") };
      let (x, y) = if w == 64 { (f64::from_bits(x as u64), f64::from_bits(y as u64)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
      let un = x.is_nan() || y.is_nan();
      let r = match k & 7 { 0 => x == y, 1 => x > y, 2 => x >= y, 3 => x < y, 4 => x <= y, 5 => x != y && !un, _ => !un };
      let r = match k { 6 => !un, 14 => un, 8..=13 => un || r, _ => r && !un };
      return V::C(r as u64);
    }
    if let (V::C(x), V::C(y)) = (a, b) { if w <= 64 {
      let s = 64 - w;
      let (sx, sy) = (((*x << s) as i64) >> s, ((*y << s) as i64) >> s);
      return V::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
        Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy, _ => unreachable!() } as u64);
    } }
    let (x, y) = (self.eid(a, w), self.eid(b, w));
    let ar = &mut self.ar;
    let e = match p {
      Pred::Eq => ar.bin(Op::Eq, x, y), Pred::Ne => { let e = ar.bin(Op::Eq, x, y); ar.not(e) }
      Pred::Ult => ar.bin(Op::Ult, x, y), Pred::Ule => ar.bin(Op::Ule, x, y), Pred::Ugt => ar.bin(Op::Ult, y, x), Pred::Uge => ar.bin(Op::Ule, y, x),
      Pred::Slt => ar.bin(Op::Slt, x, y), Pred::Sle => ar.bin(Op::Sle, x, y), Pred::Sgt => ar.bin(Op::Slt, y, x), Pred::Sge => ar.bin(Op::Sle, y, x),
      _ => unreachable!(),
    };
    vof(&self.ar, e)
  }
  fn itev(&mut self, c: Eid, t: &Ty, a: &V, b: &V) -> V {
    match (a, b) {
      (V::A(x), V::A(y)) => {
        let ts: Vec<TyRef> = match t { Ty::Struct { elems, .. } => elems.clone(), Ty::Arr(n, e) | Ty::Vec(n, e) => vec![e.clone(); *n as usize], _ => panic!() };
        V::A((0..x.len()).map(|i| self.itev(c, &ts[i], &x[i], &y[i])).collect())
      }
      (V::C(x), V::C(y)) if x == y => a.clone(),
      _ => {
        let w = t.bits();
        let (x, y) = (self.eid(a, w), self.eid(b, w));
        let e = self.ar.ite(c, x, y);
        vof(&self.ar, e)
      }
    }
  }
  fn castv(&mut self, op: CastOp, ft: &Ty, tt: &Ty, a: &V) -> V {
    match op {
      CastOp::Same => {
        let (fv, tv) = (matches!(ft, Ty::Vec(..)), matches!(tt, Ty::Vec(..)));
        if !fv && !tv {
          let (fb, tb) = (ft.bits(), tt.bits());
          if fb == tb { return a.clone(); }
          return self.castv(if fb > tb { CastOp::Trunc } else { CastOp::ZExt }, &Ty::Int(fb), &Ty::Int(tb), a);
        }
        // through an integer
        let (bits, w) = self.flat(ft, a);
        return self.unflat(tt, bits, w);
      }
      _ => {}
    }
    if let (Ty::Vec(_, f), Ty::Vec(_, t)) = (ft, tt) {
      let V::A(x) = a else { panic!() };
      return V::A(x.iter().map(|v| self.castv(op, f, t, v)).collect());
    }
    let (fb, tb) = (ft.bits(), tt.bits());
    match op {
      CastOp::Trunc => match a {
        V::C(x) => kint(*x as u128, tb), V::W(x) => kint(**x, tb),
        V::S(e) => { let e = self.ar.extract(*e, tb as u16 - 1, 0); vof(&self.ar, e) } _ => panic!() },
      CastOp::ZExt => match a { V::S(e) => { let e = self.ar.zext(*e, tb as u16); V::S(e) } v => v.clone() },
      CastOp::SExt => match a {
        V::S(e) => { let e = self.ar.sext(*e, tb as u16); V::S(e) }
        v => kint(sext128(Self::c128(v).unwrap(), fb as u16) as u128, tb) },
      _ => {
        let x = Self::c128(a).expect("symbolic float cast");
        let f = if fb == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
        let r = match op {
          CastOp::FpToUi => return kint(f as u128, tb),
          CastOp::FpToSi => return kint((f as i128) as u128, tb),
          CastOp::UiToFp => x as f64,
          CastOp::SiToFp => sext128(x, fb as u16) as f64,
          _ => f,
        };
        if tb == 64 { V::C(r.to_bits()) } else { V::C((r as f32).to_bits() as u64) }
      }
    }
  }
  /// A scalar or vector as (list of elements lowest first, element width).
  fn flat(&mut self, t: &Ty, a: &V) -> (Vec<V>, u32) {
    match (t, a) { (Ty::Vec(_, e), V::A(x)) => (x.to_vec(), e.bits()), (t, v) => (vec![v.clone()], t.bits()) }
  }
  fn unflat(&mut self, t: &Ty, b: Vec<V>, w: u32) -> V {
    let (n, ew) = match t { Ty::Vec(n, e) => (*n as u32, e.bits()), t => (1, t.bits()) };
    let total = n * ew;
    assert_eq!(total, b.len() as u32 * w);
    let out: Vec<V> = if ew == w { b } else if ew > w {
      let k = (ew / w) as usize;
      b.chunks(k).map(|c| {
        if c.iter().all(|v| matches!(v, V::C(_))) && ew <= 128 {
          let mut r = 0u128;
          for (i, v) in c.iter().enumerate() { r |= Self::c128(v).unwrap() << (i as u32 * w); }
          return kint(r, ew);
        }
        let mut e = self.eid(&c[0], w);
        for v in &c[1..] { let h = self.eid(v, w); e = self.ar.concat(h, e); }
        vof(&self.ar, e)
      }).collect()
    } else {
      let k = w / ew;
      b.iter().flat_map(|v| { (0..k).map(|i| match v {
        V::S(e) => { let e = self.ar.extract(*e, ((i + 1) * ew - 1) as u16, (i * ew) as u16); vof(&self.ar, e) }
        v => kint(Self::c128(v).unwrap() >> (i * ew), ew) }).collect::<Vec<_>>() }).collect()
    };
    if let Ty::Vec(..) = t { V::A(out.into()) } else { out.into_iter().next().unwrap() }
  }

  // ---- memory ----
  fn load_at(&mut self, mem: &Mem, a: u64, t: &Ty) -> V {
    match t {
      Ty::Struct { elems, offs, .. } => V::A((0..elems.len()).map(|i| self.load_at(mem, a + offs[i], &elems[i])).collect()),
      Ty::Vec(n, e) if **e == Ty::Int(1) => {
        let b = self.load_at(mem, a, &Ty::Int(((*n + 7) / 8 * 8) as u32));
        let tr = self.castv(CastOp::Trunc, &Ty::Int(((*n + 7) / 8 * 8) as u32), &Ty::Int(*n as u32), &b);
        self.unflat(t, vec![tr], *n as u32)
      }
      Ty::Arr(n, e) | Ty::Vec(n, e) => { let s = e.size(); V::A((0..*n).map(|i| self.load_at(mem, a + i * s, e)).collect()) }
      Ty::Void => V::C(0),
      _ => {
        let w = t.bits();
        let n = ((w + 7) / 8) as usize;
        if n > 16 { panic!("wide load i{w}"); }
        if let Some(v) = mem.read_c(a, n) { return kint(v, w); }
        let mut e: Option<Eid> = None;
        for i in 0..n {
          let b = match mem.byte(a + i as u64) { Ok(c) => self.ar.konst(c as u128, 8), Err(e) => e };
          e = Some(match e { None => b, Some(lo) => self.ar.concat(b, lo) });
        }
        let mut e = e.unwrap();
        if w < n as u32 * 8 { e = self.ar.extract(e, w as u16 - 1, 0); }
        vof(&self.ar, e)
      }
    }
  }
  fn store_at(&mut self, mem: &mut Mem, a: u64, t: &Ty, v: &V) {
    match t {
      Ty::Struct { elems, offs, .. } => { let V::A(x) = v else { panic!() }; for i in 0..elems.len() { self.store_at(mem, a + offs[i], &elems[i], &x[i]); } }
      Ty::Vec(n, e) if **e == Ty::Int(1) => {
        let bits = (*n + 7) / 8 * 8;
        let V::A(x) = v else { panic!() };
        let mut x = x.to_vec();
        while (x.len() as u64) < bits { x.push(V::C(0)); }
        let b = self.unflat(&Ty::Int(bits as u32), x, 1);
        self.store_at(mem, a, &Ty::Int(bits as u32), &b)
      }
      Ty::Arr(n, e) | Ty::Vec(n, e) => { let s = e.size(); let V::A(x) = v else { panic!() }; for i in 0..*n { self.store_at(mem, a + i * s, e, &x[i as usize]); } }
      _ => {
        let w = t.bits();
        let n = ((w + 7) / 8) as usize;
        match v {
          V::S(e) => {
            let mut e = *e;
            if w < n as u32 * 8 { e = self.ar.zext(e, n as u16 * 8); }
            for i in 0..n {
              let b = self.ar.extract(e, (i * 8 + 7) as u16, (i * 8) as u16);
              match self.ar.cv(b) { Some(c) => mem.write_c(a + i as u64, 1, c), None => mem.set_sym(a + i as u64, b) }
            }
          }
          v => mem.write_c(a, n, Self::c128(v).unwrap()),
        }
      }
    }
  }
  fn evalm(&self, st: &State, e: Eid) -> u128 { self.ar.eval(e, &st.model.vals, &mut st.model.memo.borrow_mut()) }
  fn dom_of(&self, st: &State, v: Eid) -> Set256 {
    if let Some(d) = st.dom.get(&v) { return *d; }
    let w = self.ar.w(v);
    if w == 8 { return FULL; }
    let n = 1usize << w;
    let mut d = [0u64; 4];
    for i in 0..n { d[i >> 6] |= 1 << (i & 63); }
    d
  }
  fn add_pc(&mut self, st: &mut State, c: Eid) {
    let mut cs = vec![];
    self.ar.conjuncts(c, &mut cs);
    for c in cs {
      if st.pc.contains(&c) { continue; }
      if let Some(v) = self.ar.small_var(c) {
        let d = self.dom_of(st, v);
        let t = self.ar.truth(c);
        let nd = s_and(&d, &t);
        if nd == d { continue; }
        Rc::make_mut(&mut st.dom).insert(v, nd);
      } else {
        let (vs, _) = self.ar.vars_of(c);
        if vs.len() > 1 { let t = Rc::make_mut(&mut st.tied); for v in vs { t.insert(v, ()); } }
      }
      st.pc.push(c);
    }
  }
  /// A model of the path condition in which c holds as well.
  fn feasible(&mut self, st: &State, c: Eid) -> Result<Option<Rc<Model>>, String> {
    if self.evalm(st, c) != 0 { return Ok(Some(st.model.clone())); }
    if self.ar.cv(c).is_some() { return Ok(None); }
    let mut cs = vec![];
    self.ar.conjuncts(c, &mut cs);
    // conjuncts over one small variable each: narrow its values
    let mut doms: FxMap<Eid, Set256> = Default::default();
    let mut all = true;
    for k in &cs {
      match self.ar.small_var(*k) {
        Some(v) => {
          let d = match doms.get(&v) { Some(d) => *d, None => self.dom_of(st, v) };
          let t = self.ar.truth(*k);
          let d = s_and(&d, &t);
          if s_empty(&d) { self.sh.small.fetch_add(1, SeqCst); return Ok(None); }
          doms.insert(v, d);
          if st.tied.contains_key(&v) { all = false; }
        }
        None => all = false,
      }
    }
    if all {
      self.sh.small.fetch_add(1, SeqCst);
      let mut vals = st.model.vals.clone();
      for (v, d) in doms {
        let i = self.ar.n(v).a as usize;
        if vals.len() <= i { vals.resize(i + 1, 0); }
        if !s_has(&d, vals[i] as usize) { vals[i] = s_first(&d) as u128; }
      }
      return Ok(Some(Model::new(vals)));
    }
    if self.cfg.trace { let bt: Vec<String> = st.frames.iter().rev().take(4).map(|f| short_name(&self.m.fns[f.f.id as usize].name)).collect(); eprintln!("Q {} :: {}", bt.join(" < "), self.ar.show(c, 6)); }
    self.solve(st, c)
  }
  fn vars(&mut self, c: Eid) -> Rc<[u32]> {
    if let Some(v) = self.cvars.get(&c) { return v.clone(); }
    let v: Rc<[u32]> = self.ar.vars_of(c).0.into();
    self.cvars.insert(c, v.clone());
    v
  }
  /// Ask the solver for a model of the path condition and c: only the constraints connected with c matter,
  /// the variables of the others keep their values.
  fn solve(&mut self, st: &State, c: Eid) -> Result<Option<Rc<Model>>, String> {
    let mut vs: std::collections::BTreeSet<u32> = self.vars(c).iter().copied().collect();
    let mut used = vec![false; st.pc.len()];
    loop {
      let mut more = false;
      for (i, p) in st.pc.iter().enumerate() {
        if used[i] { continue; }
        let pv = self.vars(*p);
        if pv.iter().any(|v| vs.contains(v)) { used[i] = true; more = true; vs.extend(pv.iter().copied()); }
      }
      if !more { break; }
    }
    let mut key: Vec<Eid> = st.pc.iter().zip(&used).filter(|x| *x.1).map(|x| *x.0).collect();
    key.sort();
    key.dedup();
    key.push(c);
    let r = match self.qcache.get(&key) {
      Some(r) => { self.sh.cached.fetch_add(1, SeqCst); r.clone() }
      None => {
        let idx: Vec<usize> = vs.iter().map(|v| self.ar.n(*v).a as usize).collect();
        let r = match self.solver.check_set(&self.ar, &key, &idx) {
          Res::Sat(m) => Some(Rc::new(idx.iter().map(|i| (*i, m[*i])).collect::<Vec<_>>())),
          Res::Unsat => None,
          Res::Unknown => return Err("solver gave up".into()),
        };
        if self.qcache.len() > 200_000 { self.qcache.clear(); }
        self.qcache.insert(key, r.clone());
        r
      }
    };
    Ok(r.map(|m| {
      let mut vals = st.model.vals.clone();
      for (i, v) in m.iter() { if vals.len() <= *i { vals.resize(*i + 1, 0); } vals[*i] = *v; }
      Model::new(vals)
    }))
  }
  /// For an expression over one small variable: its values, each with the variable's values giving it.
  fn small_vals(&mut self, st: &State, e: Eid) -> Option<(Eid, Vec<(u128, Set256)>)> {
    let v = self.ar.small_var(e)?;
    let d = self.dom_of(st, v);
    let t = self.ar.table(e);
    let mut out: Vec<(u128, Set256)> = vec![];
    for x in 0..256 {
      if !s_has(&d, x) { continue; }
      match out.iter_mut().find(|o| o.0 == t[x]) { Some(o) => o.1[x >> 6] |= 1 << (x & 63), None => { let mut s = [0u64; 4]; s[x >> 6] |= 1 << (x & 63); out.push((t[x], s)); } }
    }
    Some((v, out))
  }
  fn leaves(&mut self, e: Eid, cond: Option<Eid>, out: &mut Vec<(Option<Eid>, u128)>, lim: usize) -> bool {
    if out.len() > lim { return false; }
    if let Some(v) = self.ar.cv(e) { out.push((cond, v)); return true; }
    let n = self.ar.n(e);
    if n.op != Op::Ite { return false; }
    let nc = self.ar.not(n.a);
    let (c1, c2) = match cond { None => (n.a, nc), Some(c) => (self.ar.and1(c, n.a), self.ar.and1(c, nc)) };
    self.leaves(n.b, Some(c1), out, lim) && self.leaves(n.c, Some(c2), out, lim)
  }
  /// All feasible values of e under st's path condition, each with the condition selecting it; None if more than lim.
  fn cands(&mut self, st: &State, e: Eid, lim: usize) -> Result<Option<Vec<(Eid, u128)>>, String> {
    if let Some(&v) = st.known.get(&e) { let t = self.ar.konst(1, 1); return Ok(Some(vec![(t, v)])); }
    if let Some((v, vs)) = self.small_vals(st, e) {
      if vs.len() > lim { return Ok(None); }
      let d = self.dom_of(st, v);
      return Ok(Some(vs.into_iter().map(|(x, s)| { let no = s_diff(&d, &s); let c = self.ar.in_set(v, &s, &no); (c, x) }).collect()));
    }
    let mut out = vec![];
    if self.leaves(e, None, &mut out, lim) {
      let mut m: Vec<(Eid, u128)> = vec![];
      for (c, v) in out {
        let c = c.unwrap();
        if let Some(x) = m.iter_mut().find(|x| x.1 == v) { x.0 = self.ar.or1(x.0, c); } else { m.push((c, v)); }
      }
      if m.len() > 1 {
        // drop what the path condition excludes
        let mut k = vec![];
        for (c, v) in m {
          if self.feasible(st, c)?.is_some() { k.push((c, v)); }
        }
        return Ok(Some(k));
      }
      return Ok(Some(m));
    }
    let w = self.ar.w(e);
    let mut s2 = st.clone();
    let mut res = vec![];
    let mut v = self.evalm(st, e);
    loop {
      let k = self.ar.konst(v, w);
      let c = self.ar.bin(Op::Eq, e, k);
      res.push((c, v));
      if res.len() > lim { return Ok(None); }
      let nc = self.ar.not(c);
      if self.ar.cv(nc) == Some(0) { break; }
      match self.solve(&s2, nc)? {
        None => break,
        Some(m) => { s2.model = m; v = self.evalm(&s2, e); }
      }
      s2.pc.push(nc);
    }
    Ok(Some(res))
  }
  /// Fork st so that e has one value in each successor; the instruction is re-executed with `known` set.
  fn fork_values(&mut self, st: &mut State, e: Eid) -> Result<Option<u128>, String> {
    if let Some(&v) = st.known.get(&e) { return Ok(Some(v)); }
    let (vars, nn) = self.ar.vars_of(e);
    let mut target = e;
    let mut unknown = vec![];
    for v in &vars { if !st.known.contains_key(v) { unknown.push(*v); } }
    if unknown.is_empty() { return Ok(Some(self.evalm(st, e))); }
    if nn > 60 { if self.ar.w(unknown[0]) <= 16 { target = unknown[0]; } }
    let cs = match self.cands(st, target, 1 << 12)? { Some(c) => c, None => return Err("too many values to fork on".into()) };
    if cs.is_empty() { return Err("no feasible value".into()); }
    let w = self.ar.w(target);
    self.sh.forks.fetch_add(cs.len() as u64 - 1, SeqCst);
    let mv = self.evalm(st, target);
    for (_, v) in &cs {
      if *v == mv { continue; }
      let k = self.ar.konst(*v, w);
      let c = self.ar.bin(Op::Eq, target, k);
      let Some(m) = self.feasible(st, c)? else { continue };
      let mut s2 = st.clone();
      s2.model = m;
      self.add_pc(&mut s2, c);
      let mut kn = (*s2.known).clone(); kn.insert(target, *v); s2.known = Rc::new(kn);
      self.stack.push(s2);
    }
    let k = self.ar.konst(mv, w);
    let c = self.ar.bin(Op::Eq, target, k);
    if cs.len() > 1 { self.add_pc(st, c); }
    let mut kn = (*st.known).clone(); kn.insert(target, mv); st.known = Rc::new(kn);
    Ok(None)
  }
  fn conc(&mut self, st: &mut State, v: &V) -> Result<Option<u64>, String> {
    match v {
      V::C(x) => Ok(Some(*x)),
      V::S(e) => Ok(self.fork_values(st, *e)?.map(|x| x as u64)),
      _ => Err("conc of wide value".into()),
    }
  }
  fn load(&mut self, st: &mut State, p: &V, t: &Ty) -> Result<Option<V>, String> {
    match p {
      V::C(a) => {
        if *a < 0x1000 && t.size() > 0 { return Err(format!("load from null page {a:#x}")); }
        let mem = std::mem::replace(&mut st.mem, Mem::new());
        let v = self.load_at(&mem, *a, t);
        st.mem = mem;
        Ok(Some(v))
      }
      V::S(e) => {
        if let (Some(v), true) = (self.ar.small_var(*e), !matches!(t, Ty::Struct { .. } | Ty::Arr(..) | Ty::Vec(..) | Ty::Void)) {
          // a table indexed by one small variable: ranges of equal entries
          let d = self.dom_of(st, v);
          let tab = self.ar.table(*e);
          let mem = std::mem::replace(&mut st.mem, Mem::new());
          let mut runs: Vec<(usize, V)> = vec![];
          for x in 0..256 {
            if !s_has(&d, x) { continue; }
            let y = self.load_at(&mem, tab[x] as u64, t);
            if runs.last().map_or(true, |r| !same(&r.1, &y)) { runs.push((x, y)); }
          }
          st.mem = mem;
          let w = self.ar.w(v);
          let (mut from, mut acc) = runs.pop().ok_or("no feasible address")?;
          while let Some((f, y)) = runs.pop() {
            let k = self.ar.konst(from as u128, w);
            let c = self.ar.bin(Op::Ult, v, k);
            acc = match self.ar.cv(c) { Some(1) => y, Some(_) => acc, None => self.itev(c, t, &y, &acc) };
            from = f;
          }
          return Ok(Some(acc));
        }
        match self.cands(st, *e, 300)? {
          None => { let r = self.fork_values(st, *e)?; match r { None => Ok(None), Some(a) => self.load(st, &V::C(a as u64), t) } }
          Some(cs) => {
            let mem = std::mem::replace(&mut st.mem, Mem::new());
            let mut acc: Option<V> = None;
            for (c, a) in cs.iter().rev() {
              let v = self.load_at(&mem, *a as u64, t);
              acc = Some(match acc { None => v, Some(o) => self.itev(*c, t, &v, &o) });
            }
            st.mem = mem;
            acc.map(Some).ok_or_else(|| "no feasible address".to_string())
          }
        }
      }
      _ => Err("bad pointer".into()),
    }
  }
  fn store(&mut self, st: &mut State, p: &V, t: &Ty, v: &V) -> Result<bool, String> {
    match p {
      V::C(a) => {
        if *a < 0x1000 && t.size() > 0 { return Err(format!("store to null page {a:#x}")); }
        let mut mem = std::mem::replace(&mut st.mem, Mem::new());
        self.store_at(&mut mem, *a, t, v);
        st.mem = mem;
        Ok(true)
      }
      V::S(e) => {
        let many = self.cands(st, *e, 32)?;
        match many {
          None => match self.fork_values(st, *e)? { None => Ok(false), Some(a) => self.store(st, &V::C(a as u64), t, v) },
          Some(cs) => {
            let mut mem = std::mem::replace(&mut st.mem, Mem::new());
            for (c, a) in &cs {
              let old = self.load_at(&mem, *a as u64, t);
              let nv = if cs.len() == 1 { v.clone() } else { self.itev(*c, t, v, &old) };
              self.store_at(&mut mem, *a as u64, t, &nv);
            }
            st.mem = mem;
            Ok(true)
          }
        }
      }
      _ => Err("bad pointer".into()),
    }
  }

  // ---- control ----
  fn jump(st: &mut State, b: u32) {
    let fr = st.frames.last_mut().unwrap();
    let from = fr.blk;
    fr.prev = from;
    fr.blk = b;
    fr.ip = 0;
    let f = fr.f.clone();
    let phis = &f.blocks[b as usize].phis;
    if phis.is_empty() { return; }
    if phis.len() == 1 {
      let v = match &phis[0].arms.iter().find(|a| a.0 == from).expect("phi arm").1 { Opn::R(r) => fr.regs[*r as usize].clone(), Opn::K(v) => v.clone() };
      fr.regs[phis[0].dst as usize] = v;
      return;
    }
    let vals: Vec<V> = phis.iter().map(|p| match &p.arms.iter().find(|a| a.0 == from).expect("phi arm").1 { Opn::R(r) => fr.regs[*r as usize].clone(), Opn::K(v) => v.clone() }).collect();
    for (p, v) in phis.iter().zip(vals) { fr.regs[p.dst as usize] = v; }
  }
  /// Decide a symbolic condition: (true feasible, false feasible) with st following the model's side; pushes the other side.
  fn branch(&mut self, st: &mut State, c: Eid) -> Result<(bool, Option<State>), String> {
    if let Some(&v) = st.known.get(&c) { return Ok((v != 0, None)); }
    let side = self.evalm(st, c) != 0;
    let nc = self.ar.not(c);
    let (mine, other) = if side { (c, nc) } else { (nc, c) };
    let small = self.ar.small_var(c).is_some();
    match self.feasible(st, other)? {
      None => {
        // implied: remember, so the same test is not asked again
        if !small { let kn = Rc::make_mut(&mut st.known); kn.insert(c, side as u128); kn.insert(nc, !side as u128); }
        else { let v = self.ar.small_var(c).unwrap(); let d = self.dom_of(st, v); let t = self.ar.truth(mine); let nd = s_and(&d, &t); if nd != d { Rc::make_mut(&mut st.dom).insert(v, nd); } }
        Ok((side, None))
      }
      Some(m) => {
        let mut s2 = st.clone();
        self.add_pc(&mut s2, other);
        s2.model = m;
        self.add_pc(st, mine);
        if !small {
          let kn = Rc::make_mut(&mut s2.known); kn.insert(c, !side as u128); kn.insert(nc, side as u128);
          let kn = Rc::make_mut(&mut st.known); kn.insert(c, side as u128); kn.insert(nc, !side as u128);
        }
        self.sh.forks.fetch_add(1, SeqCst);
        Ok((side, Some(s2)))
      }
    }
  }
  fn inputs_of(&self, st: &State, m: &[u128]) -> Vec<(String, u16, u128)> {
    st.inputs.iter().map(|(e, n)| (n.to_string(), self.ar.w(*e), m.get(self.ar.n(*e).a as usize).copied().unwrap_or(0))).collect()
  }
  fn violation(&mut self, st: &State, id: String, kind: &str, m: &[u128]) {
    if self.viol.contains_key(&id) { return; }
    let notes = st.notes.iter().map(|(n, v)| (n.to_string(), match v { V::S(e) => self.ar.eval(*e, m, &mut Default::default()), v => Self::c128(v).unwrap_or(0) })).collect();
    let stack = st.frames.iter().rev().take(12).map(|f| self.m.fns[f.f.id as usize].name.clone()).collect();
    let inputs = self.inputs_of(st, m);
    self.viol.insert(id.clone(), Violation { id, kind: kind.into(), inputs, notes, stack });
    if self.cfg.stop_first { self.sh.stop.store(1, SeqCst); }
  }
  fn cstr(&self, st: &State, p: &V, n: &V) -> String {
    let (V::C(a), V::C(n)) = (p, n) else { return "?".into() };
    let b: Vec<u8> = (0..(*n).min(400)).map(|i| st.mem.byte(a + i).unwrap_or(b'?')).collect();
    String::from_utf8_lossy(&b).into_owned()
  }
  fn alloc(st: &mut State, size: u64, align: u64) -> u64 {
    let a = align.max(16);
    let p = (st.heap + a - 1) / a * a;
    st.heap = p + size.max(1);
    p
  }
  fn panic_loc(&self, st: &State, args: &[V]) -> String {
    for v in args.iter().rev() {
      if let V::C(p) = v {
        if *p < GLOBAL_BASE || *p >= HEAP { continue; }
        let (Some(f), Some(n), Some(l)) = (st.mem.read_c(*p, 8), st.mem.read_c(*p + 8, 8), st.mem.read_c(*p + 16, 4)) else { continue };
        if n > 400 || n == 0 || (f as u64) < GLOBAL_BASE || f as u64 >= HEAP { continue; }
        let s = self.cstr(st, &V::C(f as u64), &V::C(n as u64));
        if !s.contains('/') && !s.ends_with(".rs") { continue; }
        // shorten: path inside the workspace or the library
        let s = s.rsplit("/ws/").next().unwrap().rsplit("/library/").next().unwrap().to_string();
        return format!("{s}:{l}");
      }
    }
    "unknown location".into()
  }
  fn end_path(&mut self, st: &State) { self.sh.paths.fetch_add(1, SeqCst); self.sh.insts.fetch_add(st.insts, SeqCst); }

  fn run(&mut self, mut st: State) {
    let start = st.insts;
    let mut poll = 0u32;
    loop {
      poll = poll.wrapping_add(1);
      if poll & 0x3ff == 0 {
        if self.sh.stop.load(SeqCst) != 0 { return; }
        if !self.stack.is_empty() && self.split() { return; }
        if st.insts > self.cfg.max_inst && self.cfg.hang { let m = st.model.vals.clone(); self.violation(&st, "does not end".into(), "hang", &m); self.sh.stop.store(1, SeqCst); self.end_path(&st); return; }
        if st.insts > self.cfg.max_inst { self.err(&st, "instruction limit on one path".into()); self.end_path(&st); return; }
        if poll & 0xfffff == 0 && std::time::Instant::now() > self.cfg.deadline { self.err(&st, "time limit reached: exploration incomplete".into()); self.sh.stop.store(1, SeqCst); return; }
      }
      st.insts += 1;
      match self.step(&mut st) {
        Ok(Flow::Next) | Ok(Flow::Retry) => {}
        Ok(Flow::End) => { let _ = start; self.end_path(&st); return; }
        Err(e) => { self.err(&st, e); self.end_path(&st); return; }
      }
    }
  }
  fn step(&mut self, st: &mut State) -> Result<Flow, String> {
    let fr = st.frames.last().unwrap();
    let f = fr.f.clone();
    let ins = &f.blocks[fr.blk as usize].ins[fr.ip as usize];
    macro_rules! g { ($o:expr) => { Self::get(st, $o) } }
    macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; let fr = st.frames.last_mut().unwrap(); fr.regs[$d as usize] = v; fr.ip += 1; }} }
    match ins {
      I::Bin(op, d, t, a, b) => { let (a, b) = (g!(a), g!(b)); let v = self.binv(*op, t, &a, &b); set!(*d, v) }
      I::Cmp(p, d, t, a, b) => { let (a, b) = (g!(a), g!(b)); let v = self.cmpv(*p, t, &a, &b); set!(*d, v) }
      I::Sel(d, t, vec, c, a, b) => {
        let (c, a, b) = (g!(c), g!(a), g!(b));
        let v = if *vec {
          let (V::A(c), V::A(a), V::A(b)) = (&c, &a, &b) else { panic!() };
          let Ty::Vec(_, et) = &**t else { panic!() };
          V::A((0..c.len()).map(|i| match &c[i] { V::C(x) => if *x != 0 { a[i].clone() } else { b[i].clone() }, V::S(e) => self.itev(*e, et, &a[i], &b[i]), _ => panic!() }).collect())
        } else {
          match c { V::C(x) => if x != 0 { a } else { b }, V::S(e) => match st.known.get(&e) { Some(&k) => if k != 0 { a } else { b }, None => self.itev(e, t, &a, &b) }, _ => panic!() }
        };
        set!(*d, v)
      }
      I::Cast(op, d, ft, tt, a) => { let a = g!(a); let v = self.castv(*op, ft, tt, &a); set!(*d, v) }
      I::Load(d, t, p) => { let p = g!(p); match self.load(st, &p, t)? { Some(v) => set!(*d, v), None => return Ok(Flow::Retry) } }
      I::Store(t, v, p) => { let (v, p) = (g!(v), g!(p)); if !self.store(st, &p, t, &v)? { return Ok(Flow::Retry); } st.frames.last_mut().unwrap().ip += 1; }
      I::Gep(d, base, off, dynm) => {
        let mut v = g!(base);
        if let V::A(_) = v { return Err("vector gep".into()); }
        if *off != 0 { v = self.binv(BinOp::Add, &Ty::Ptr, &v, &V::C(*off)); }
        for (o, bits, scale) in dynm {
          let i = g!(o);
          let i = if *bits < 64 { self.castv(CastOp::SExt, &Ty::Int(*bits), &Ty::Int(64), &i) } else { i };
          let i = if *scale == 1 { i } else { self.binv(BinOp::Mul, &Ty::Ptr, &i, &V::C(*scale)) };
          v = self.binv(BinOp::Add, &Ty::Ptr, &v, &i);
        }
        set!(*d, v)
      }
      I::Alloca(d, size, al, n) => {
        let n = match n { None => 1, Some(o) => { let v = g!(o); match self.conc(st, &v)? { Some(x) => x, None => return Ok(Flow::Retry) } } };
        let a = (st.sp + al - 1) / al * al;
        st.sp = a + size * n;
        set!(*d, V::C(a))
      }
      I::ExtVal(d, a, idx) => { let mut v = g!(a); for i in idx { let n = match &v { V::A(x) => x[*i as usize].clone(), _ => panic!("extractvalue") }; v = n; } set!(*d, v) }
      I::InsVal(d, a, e, idx) => { let (a, e) = (g!(a), g!(e)); set!(*d, insv(&a, &e, idx)) }
      I::ExtEl(d, _t, a, i) => { let (a, i) = (g!(a), g!(i)); let i = match self.conc(st, &i)? { Some(x) => x, None => return Ok(Flow::Retry) }; let V::A(x) = a else { panic!() }; set!(*d, x[i as usize].clone()) }
      I::InsEl(d, _t, a, e, i) => { let (a, e, i) = (g!(a), g!(e), g!(i)); let i = match self.conc(st, &i)? { Some(x) => x, None => return Ok(Flow::Retry) }; set!(*d, insv(&a, &e, &[i as u32])) }
      I::Shuf(d, n, a, b, mask) => {
        let (a, b) = (g!(a), g!(b));
        let (V::A(x), V::A(y)) = (&a, &b) else { panic!() };
        set!(*d, V::A(mask.iter().map(|i| if (*i as u64) < *n { x[*i as usize].clone() } else { y[(*i as u64 - n) as usize].clone() }).collect()))
      }
      I::Rmw(d, op, t, p, v) => {
        let (p, v) = (g!(p), g!(v));
        let old = match self.load(st, &p, t)? { Some(x) => x, None => return Ok(Flow::Retry) };
        let b = |o| o;
        let nv = match *op {
          "add" => self.binv(b(BinOp::Add), t, &old, &v), "sub" => self.binv(BinOp::Sub, t, &old, &v), "and" => self.binv(BinOp::And, t, &old, &v),
          "or" => self.binv(BinOp::Or, t, &old, &v), "xor" => self.binv(BinOp::Xor, t, &old, &v), "xchg" => v.clone(),
          "nand" => { let x = self.binv(BinOp::And, t, &old, &v); self.binv(BinOp::Xor, t, &x, &kint(u128::MAX, t.bits())) }
          o => {
            let pr = match o { "umax" => Pred::Ugt, "umin" => Pred::Ult, "max" => Pred::Sgt, _ => Pred::Slt };
            match self.cmpv(pr, t, &old, &v) { V::C(1) => old.clone(), V::C(_) => v.clone(), V::S(e) => self.itev(e, t, &old, &v), _ => panic!() }
          }
        };
        if !self.store(st, &p, t, &nv)? { return Ok(Flow::Retry); }
        set!(*d, old)
      }
      I::Cmpxchg(d, t, p, c, n) => {
        let (p, c, n) = (g!(p), g!(c), g!(n));
        let old = match self.load(st, &p, t)? { Some(x) => x, None => return Ok(Flow::Retry) };
        let ok = self.cmpv(Pred::Eq, t, &old, &c);
        let nv = match &ok { V::C(1) => n, V::C(_) => old.clone(), V::S(e) => self.itev(*e, t, &n, &old), _ => panic!() };
        if !self.store(st, &p, t, &nv)? { return Ok(Flow::Retry); }
        set!(*d, V::A(vec![old, ok].into()))
      }
      I::FNeg(d, t, a) => { let a = g!(a); let k = if t.bits() == 64 { 1u64 << 63 } else { 1 << 31 }; let v = self.binv(BinOp::Xor, &Ty::Int(t.bits()), &a, &V::C(k)); set!(*d, v) }
      I::Copy(d, a) => { let v = g!(a); set!(*d, v) }
      I::Br(b) => Self::jump(st, *b),
      I::CBr(c, a, b) => match g!(c) {
        V::C(x) => Self::jump(st, if x != 0 { *a } else { *b }),
        V::S(e) => {
          let (side, other) = self.branch(st, e)?;
          if let Some(mut s2) = other { Self::jump(&mut s2, if side { *b } else { *a }); self.stack.push(s2); }
          Self::jump(st, if side { *a } else { *b });
        }
        _ => panic!(),
      },
      I::Switch(t, v, def, cs) => {
        let v = g!(v);
        match v {
          V::S(e) => {
            if let Some(&k) = st.known.get(&e) { let b = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def); Self::jump(st, b); return Ok(Flow::Next); }
            let w = t.bits();
            // group cases by target, follow each feasible one
            let mut groups: Vec<(u32, Eid)> = vec![];
            let mut none = self.ar.konst(1, 1);
            for (k, b) in cs {
              let kk = self.ar.konst(*k, w as u16);
              let c = self.ar.bin(Op::Eq, e, kk);
              let nc = self.ar.not(c);
              none = self.ar.and1(none, nc);
              if self.ar.cv(c) == Some(0) { continue; }
              if let Some(g) = groups.iter_mut().find(|g| g.0 == *b) { g.1 = self.ar.or1(g.1, c); } else { groups.push((*b, c)); }
            }
            if let Some(g) = groups.iter_mut().find(|g| g.0 == *def) { g.1 = self.ar.or1(g.1, none); } else { groups.push((*def, none)); }
            let mine = groups.iter().position(|g| self.evalm(st, g.1) != 0).ok_or("switch: no case holds")?;
            let mut n = 0;
            for (i, (b, c)) in groups.iter().enumerate() {
              if i == mine || self.ar.cv(*c) == Some(0) { continue; }
              if let Some(m) = self.feasible(st, *c)? { let mut s2 = st.clone(); self.add_pc(&mut s2, *c); s2.model = m; Self::jump(&mut s2, *b); self.stack.push(s2); n += 1; }
            }
            self.sh.forks.fetch_add(n, SeqCst);
            if n > 0 { self.add_pc(st, groups[mine].1); }
            Self::jump(st, groups[mine].0);
          }
          v => { let x = Self::c128(&v).unwrap(); let b = cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def); Self::jump(st, b) }
        }
      }
      I::Ret(v) => {
        let v = v.as_ref().map(|(_, o)| g!(o));
        let fr = st.frames.pop().unwrap();
        st.sp = fr.sp;
        if st.frames.is_empty() {
          for c in std::mem::take(&mut st.covers) { if !self.covers.contains_key(&*c) { let i = self.inputs_of(st, &st.model.vals); self.covers.insert(c.to_string(), i); } }
          return Ok(Flow::End);
        }
        let v = if fr.catch { Some(V::C(0)) } else { v };
        Self::ret_to(st, fr.dst, fr.normal, v);
      }
      I::Call { dst, ret, callee, args, normal } => {
        let av: Vec<V> = args.iter().map(|(_, o)| g!(o)).collect();
        let id = match callee {
          Callee::Fn(id) => *id,
          Callee::Ind(o) => {
            let v = g!(o);
            let a = match self.conc(st, &v)? { Some(a) => a, None => return Ok(Flow::Retry) };
            let k = a.wrapping_sub(FN_BASE) / 16;
            if k as usize >= self.m.fns.len() { return Err(format!("indirect call to {a:#x}")); }
            k as u32
          }
          Callee::Asm(s) => {
            let r = if s.contains("cpuid") || s.contains("xgetbv") || !matches!(**ret, Ty::Ptr) { Module::zero(ret) } else if let Some(a) = av.first() { a.clone() } else { Module::zero(ret) };
            Self::ret_to(st, *dst, *normal, Some(r));
            return Ok(Flow::Next);
          }
        };
        return self.call(st, id, av, args, ret, *dst, *normal);
      }
      I::Unreachable => return Err("reached unreachable".into()),
      I::LandingPad(_) | I::Resume => return Err("landing pad executed".into()),
      I::Nop => st.frames.last_mut().unwrap().ip += 1,
    }
    Ok(Flow::Next)
  }
  fn ret_to(st: &mut State, dst: Option<u32>, normal: Option<u32>, v: Option<V>) {
    let fr = st.frames.last_mut().unwrap();
    if let (Some(d), Some(v)) = (dst, v) { fr.regs[d as usize] = v; }
    match normal { Some(b) => Self::jump(st, b), None => fr.ip += 1 }
  }
  fn do_panic(&mut self, st: &mut State, what: String) -> Result<Flow, String> {
    if let Some(k) = st.frames.iter().rposition(|f| f.catch) {
      if st.notes.len() < 16 { let at: Vec<String> = st.frames[k..].iter().rev().take(8).map(|f| short_name(&self.m.fns[f.f.id as usize].name)).collect(); st.notes.push((format!("caught {what} in {}", at.join(" < ")).into(), V::C(0))); }
      let fr = st.frames[k].clone();
      st.frames.truncate(k);
      st.sp = fr.sp;
      Self::ret_to(st, fr.dst, fr.normal, Some(V::C(1)));
      return Ok(Flow::Next);
    }
    let m = st.model.vals.clone();
    self.violation(st, what, "panic", &m);
    Ok(Flow::End)
  }
  fn call(&mut self, st: &mut State, id: u32, av: Vec<V>, args: &[(TyRef, Opn)], ret: &TyRef, dst: Option<u32>, normal: Option<u32>) -> Result<Flow, String> {
    let id = *self.redirect.get(&id).unwrap_or(&id);
    let Some(sp) = self.sp_of[id as usize] else {
      if self.m.fns[id as usize].body.is_none() { return Err(format!("unmodelled external function {}", self.m.fns[id as usize].name)); }
      if st.frames.len() > 2000 { return Err("call depth".into()); }
      let f = self.func(id);
      if self.cfg.trace && false { eprintln!("{}call {}", " ".repeat(st.frames.len()), self.m.fns[id as usize].name); }
      if f.params.len() > av.len() { return Err(format!("{} takes {} parameters, not {}", self.m.fns[id as usize].name, f.params.len(), av.len())); }
      let mut regs = vec![V::C(0); f.nregs as usize];
      for (i, p) in f.params.iter().enumerate() { regs[*p as usize] = av[i].clone(); }
      let sp = st.sp;
      st.frames.push(Frame { f, regs, blk: 0, ip: 0, prev: 0, sp, dst, normal, catch: false });
      return Ok(Flow::Next);
    };
    macro_rules! conc { ($v:expr) => { match self.conc(st, $v)? { Some(x) => x, None => return Ok(Flow::Retry) } } }
    macro_rules! done { ($v:expr) => {{ let v = $v; Self::ret_to(st, dst, normal, v); return Ok(Flow::Next); }} }
    let t0 = args.first().map(|a| a.0.clone());
    use Sp::*;
    match sp {
      Any => {
        let w = conc!(&av[0]) as u16;
        let name: Rc<str> = if av.len() > 2 { self.cstr(st, &av[1], &av[2]).into() } else { "x".into() };
        let k = (st.inputs.len(), w);
        let e = match self.varcache.get(&k) { Some(&e) => e, None => { let e = self.ar.var(&name, w); self.varcache.insert(k, e); e } };
        st.inputs.push((e, name));
        let e = self.ar.zext(e, 64);
        done!(Some(V::S(e)))
      }
      Assume => {
        match &av[0] {
          V::C(0) => { self.sh.pruned.fetch_add(1, SeqCst); return Ok(Flow::End); }
          V::S(e) => {
            let e = *e;
            match self.feasible(st, e)? {
              Some(m) => st.model = m,
              None => { self.sh.pruned.fetch_add(1, SeqCst); return Ok(Flow::End); }
            }
            self.add_pc(st, e);
          }
          _ => {}
        }
        done!(None)
      }
      Assert => {
        self.sh.asserts.fetch_add(1, SeqCst);
        match &av[0] {
          V::C(0) => { let id = self.cstr(st, &av[1], &av[2]); let m = st.model.vals.clone(); self.violation(st, id, "assert", &m); return Ok(Flow::End); }
          V::S(e) => {
            self.sh.asserts_sym.fetch_add(1, SeqCst);
            let e = *e;
            let ne = self.ar.not(e);
            if self.evalm(st, ne) != 0 {
              let id = self.cstr(st, &av[1], &av[2]); let m = st.model.vals.clone(); self.violation(st, id, "assert", &m); return Ok(Flow::End);
            }
            if let Some(m) = self.solve(st, ne)? { let id = self.cstr(st, &av[1], &av[2]); let m = m.vals.clone(); self.violation(st, id, "assert", &m); return Ok(Flow::End); }
          }
          _ => {}
        }
        done!(None)
      }
      Fail => { let id = self.cstr(st, &av[0], &av[1]); let m = st.model.vals.clone(); self.violation(st, id, "assert", &m); return Ok(Flow::End); }
      Cover => {
        let id = self.cstr(st, &av[0], &av[1]);
        if !self.covers.contains_key(&id) && !st.covers.iter().any(|c| **c == *id) { st.covers.push(id.into()); }
        done!(None)
      }
      Pick => {
        // a value below n, forked on
        let n = conc!(&av[0]);
        if n == 0 { return Ok(Flow::End); }
        let pw = if n <= 256 { 8 } else { 16 };
        let k = (st.inputs.len(), pw + 1000);
        let e = match self.varcache.get(&k) { Some(&e) => e, None => { let e = self.ar.var("pick", pw); self.varcache.insert(k, e); e } };
        if !st.known.contains_key(&e) {
          let kn = self.ar.konst(n as u128 - 1, pw);
          let c = self.ar.bin(Op::Ule, e, kn);
          st.model = self.feasible(st, c)?.ok_or("pick")?;
          self.add_pc(st, c);
          self.fork_values(st, e)?;
          return Ok(Flow::Retry);
        }
        let v = st.known[&e];
        let name: Rc<str> = if av.len() > 2 { self.cstr(st, &av[1], &av[2]).into() } else { "pick".into() };
        st.inputs.push((e, name));
        done!(Some(V::C(v as u64)))
      }
      Conc => { let x = conc!(&av[0]); done!(Some(V::C(x))) }
      IsSym => done!(Some(V::C(1))),
      Param => { let i = conc!(&av[0]); let v = self.cfg.params.get(i as usize).copied().unwrap_or_else(|| conc_default(&av)); done!(Some(V::C(v))) }
      Note => { let n: Rc<str> = self.cstr(st, &av[0], &av[1]).into(); st.notes.push((n, av[2].clone())); done!(None) }
      Catch => {
        let a = conc!(&av[0]);
        let fid = ((a - FN_BASE) / 16) as u32;
        let f = self.func(fid);
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() { regs[*p as usize] = av[i + 1].clone(); }
        let sp = st.sp;
        st.frames.push(Frame { f, regs, blk: 0, ip: 0, prev: 0, sp, dst, normal, catch: true });
        Ok(Flow::Next)
      }
      Alloc => { let (s, a) = (conc!(&av[0]), conc!(&av[1])); if s > 1 << 30 { return Err(format!("allocation of {s} bytes")); } let p = Self::alloc(st, s, a); done!(Some(V::C(p))) }
      AllocZ => { let (s, a) = (conc!(&av[0]), conc!(&av[1])); if s > 1 << 30 { return Err(format!("allocation of {s} bytes")); } let p = Self::alloc(st, s, a); done!(Some(V::C(p))) }
      Malloc => { let s = conc!(&av[0]); let p = Self::alloc(st, s, 16); done!(Some(V::C(p))) }
      Calloc => { let (s, n) = (conc!(&av[0]), conc!(&av[1])); let p = Self::alloc(st, s * n, 16); done!(Some(V::C(p))) }
      PosixMemalign => { let (o, al, s) = (conc!(&av[0]), conc!(&av[1]), conc!(&av[2])); let p = Self::alloc(st, s, al); st.mem.write_c(o, 8, p as u128); done!(Some(V::C(0))) }
      Realloc => {
        let (p, old, al, new) = (conc!(&av[0]), conc!(&av[1]), conc!(&av[2]), conc!(&av[3]));
        let q = Self::alloc(st, new, al);
        st.mem.copy(q, p, old.min(new));
        done!(Some(V::C(q)))
      }
      Free | Nop | LLife | LAssume => done!(Some(V::C(0))),
      Memcpy => {
        let n = conc!(&av[2]);
        if n == 0 { done!(Some(av[0].clone())) }
        let (d, s) = (conc!(&av[0]), conc!(&av[1]));
        if n > 1 << 28 { return Err(format!("memcpy of {n} bytes")); }
        st.mem.copy(d, s, n);
        done!(Some(V::C(d)))
      }
      Memset => {
        let n = conc!(&av[2]);
        if n == 0 { done!(Some(av[0].clone())) }
        let d = conc!(&av[0]);
        if n > 1 << 28 { return Err(format!("memset of {n} bytes")); }
        let bt = args[1].0.bits();
        let b = if bt == 8 { av[1].clone() } else { self.castv(CastOp::Trunc, &Ty::Int(bt), &Ty::Int(8), &av[1]) };
        match b { V::C(b) => st.mem.fill(d, n, b as u8), V::S(e) => for i in 0..n { st.mem.set_sym(d + i, e) }, _ => panic!() }
        done!(Some(V::C(d)))
      }
      Memcmp => {
        let (a, b, n) = (conc!(&av[0]), conc!(&av[1]), conc!(&av[2]));
        // first difference decides, from the last byte backwards
        let w = ret.bits() as u16;
        let eqonly = self.m.fns[id as usize].name == "bcmp";
        let mut acc = V::C(0);
        for i in (0..n).rev() {
          let (x, y) = (st.mem.byte(a + i), st.mem.byte(b + i));
          if let (Ok(x), Ok(y)) = (x, y) {
            if x != y { acc = V::C(if eqonly { 1 } else if x < y { mask(w) as u64 } else { 1 }); }
            continue;
          }
          let xe = match x { Ok(c) => self.ar.konst(c as u128, 8), Err(e) => e };
          let ye = match y { Ok(c) => self.ar.konst(c as u128, 8), Err(e) => e };
          let eq = self.ar.bin(Op::Eq, xe, ye);
          let one = self.ar.konst(1, w); let neg = self.ar.konst(u128::MAX, w);
          let d = if eqonly { one } else { let lt = self.ar.bin(Op::Ult, xe, ye); self.ar.ite(lt, neg, one) };
          let ac = self.eid(&acc, w as u32);
          let r = self.ar.ite(eq, ac, d);
          acc = vof(&self.ar, r);
        }
        done!(Some(acc))
      }
      Strlen => { let a = conc!(&av[0]); let mut n = 0; while st.mem.byte(a + n) != Ok(0) { n += 1; if n > 1 << 20 { return Err("strlen".into()); } } done!(Some(V::C(n))) }
      Panic => {
        let loc = self.panic_loc(st, &av);
        let n = &self.m.fns[id as usize].name;
        let short = short_name(n);
        self.do_panic(st, format!("panic at {loc} ({short})"))
      }
      Abort => { let caller = self.m.fns[st.frames.last().unwrap().f.id as usize].name.clone(); self.do_panic(st, format!("abort in {}", short_name(&caller))) }
      RetZero => done!(Some(V::C(0))),
      RetOne => done!(Some(V::C(1))),
      PthreadKey => { let p = conc!(&av[0]); st.mem.write_c(p, 4, 5); done!(Some(V::C(0))) }
      Errno => done!(Some(V::C(0xF000_0000))),
      WriteLen => done!(Some(av[2].clone())),
      RandomKeys => done!(Some(V::A(vec![V::C(0x1234_5678_9abc_def0), V::C(0x0fed_cba9_8765_4321)].into()))),
      Tls => done!(Some(av[0].clone())),
      Memchr => Err("memchr".into()),
      LUmax | LUmin | LSmax | LSmin => {
        let p = match sp { LUmax => Pred::Ugt, LUmin => Pred::Ult, LSmax => Pred::Sgt, _ => Pred::Slt };
        let t = t0.unwrap();
        let v = self.minmax(p, &t, &av[0], &av[1]);
        done!(Some(v))
      }
      LUaddO | LUsubO | LUmulO | LSaddO | LSsubO | LSmulO => {
        let t = t0.unwrap();
        let w = t.bits();
        let op = match sp { LUaddO | LSaddO => BinOp::Add, LUsubO | LSsubO => BinOp::Sub, _ => BinOp::Mul };
        let r = self.binv(op, &t, &av[0], &av[1]);
        let o = match sp {
          LUaddO => self.cmpv(Pred::Ult, &t, &r, &av[0]),
          LUsubO => self.cmpv(Pred::Ult, &t, &av[0], &av[1]),
          LUmulO | LSaddO | LSsubO | LSmulO => {
            if w > 64 { return Err("wide overflow".into()); }
            let w2 = Ty::Int(w * 2);
            let k = if sp == LUmulO { CastOp::ZExt } else { CastOp::SExt };
            let (x, y) = (self.castv(k, &t, &w2, &av[0]), self.castv(k, &t, &w2, &av[1]));
            let full = self.binv(op, &w2, &x, &y);
            let back = self.castv(k, &t, &w2, &r);
            self.cmpv(Pred::Ne, &w2, &full, &back)
          }
          _ => unreachable!(),
        };
        done!(Some(V::A(vec![r, o].into())))
      }
      LFshl | LFshr => {
        let t = t0.unwrap();
        let w = t.bits() as u64;
        let n = conc!(&av[2]) % w;
        let v = if n == 0 { if sp == LFshl { av[0].clone() } else { av[1].clone() } } else {
          let (l, r) = if sp == LFshl { (n, w - n) } else { (w - n, n) };
          let a = self.binv(BinOp::Shl, &t, &av[0], &V::C(l));
          let b = self.binv(BinOp::LShr, &t, &av[1], &V::C(r));
          self.binv(BinOp::Or, &t, &a, &b)
        };
        done!(Some(v))
      }
      LCttz | LCtlz | LCtpop | LBswap | LBitrev => {
        let t = t0.unwrap();
        let w = t.bits();
        if let Some(x) = Self::c128(&av[0]) {
          let r = match sp {
            LCttz => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
            LCtlz => (w - (128 - x.leading_zeros())) as u128,
            LCtpop => x.count_ones() as u128,
            LBswap => x.swap_bytes() >> (128 - w),
            _ => x.reverse_bits() >> (128 - w),
          };
          done!(Some(kint(r, w)))
        }
        let V::S(e) = av[0] else { panic!() };
        let r = match sp {
          LBswap => { let mut acc = None; for i in 0..w / 8 { let b = self.ar.extract(e, (i * 8 + 7) as u16, (i * 8) as u16); acc = Some(match acc { None => b, Some(h) => self.ar.concat(h, b) }); } acc.unwrap() }
          LCtpop => { let mut s = self.ar.konst(0, w as u16); for i in 0..w { let b = self.ar.extract(e, i as u16, i as u16); let b = self.ar.zext(b, w as u16); s = self.ar.bin(Op::Add, s, b); } s }
          LCttz => { let mut s = self.ar.konst(w as u128, w as u16); for i in (0..w).rev() { let b = self.ar.extract(e, i as u16, i as u16); let k = self.ar.konst(i as u128, w as u16); s = self.ar.ite(b, k, s); } s }
          LCtlz => { let mut s = self.ar.konst(w as u128, w as u16); for i in 0..w { let b = self.ar.extract(e, i as u16, i as u16); let k = self.ar.konst((w - 1 - i) as u128, w as u16); s = self.ar.ite(b, k, s); } s }
          _ => return Err("bitreverse".into()),
        };
        done!(Some(vof(&self.ar, r)))
      }
      LUaddS | LUsubS => {
        let t = t0.unwrap();
        let v = self.satv(sp == LUaddS, &t, &av[0], &av[1]);
        done!(Some(v))
      }
      LSaddS | LSsubS => Err("signed saturation".into()),
      LAbs => {
        let t = t0.unwrap();
        let n = self.binv(BinOp::Sub, &t, &V::C(0), &av[0]);
        let c = self.cmpv(Pred::Slt, &t, &av[0], &V::C(0));
        let v = match c { V::C(x) => if x != 0 { n } else { av[0].clone() }, V::S(e) => self.itev(e, &t, &n, &av[0]), _ => panic!() };
        done!(Some(v))
      }
      LScmp | LUcmp => {
        let t = t0.unwrap();
        let (lt, gt) = if sp == LScmp { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
        let (a, b) = (self.cmpv(lt, &t, &av[0], &av[1]), self.cmpv(gt, &t, &av[0], &av[1]));
        let (a, b) = (self.castv(CastOp::SExt, &Ty::Int(1), ret, &a), self.castv(CastOp::ZExt, &Ty::Int(1), ret, &b));
        let v = self.binv(BinOp::Or, ret, &a, &b);
        done!(Some(v))
      }
      LExpect => done!(Some(av[0].clone())),
      LIsConst => done!(Some(V::C(0))),
      LLoadRel => {
        let p = self.binv(BinOp::Add, &Ty::Ptr, &av[0], &av[1]);
        let v = match self.load(st, &p, &Ty::Int(32))? { Some(v) => v, None => return Ok(Flow::Retry) };
        let v = self.castv(CastOp::SExt, &Ty::Int(32), &Ty::Int(64), &v);
        let v = self.binv(BinOp::Add, &Ty::Ptr, &av[0], &v);
        done!(Some(v))
      }
      LMovmsk => {
        let V::A(x) = &av[0] else { panic!() };
        let bits: Vec<V> = x.clone().iter().map(|v| match v { V::C(c) => V::C(c >> 7), V::S(e) => { let b = self.ar.extract(*e, 7, 7); vof(&self.ar, b) } _ => panic!() }).collect();
        let v = self.unflat(&Ty::Int(16), bits, 1);
        let v = self.castv(CastOp::ZExt, &Ty::Int(16), &Ty::Int(32), &v);
        done!(Some(v))
      }
      LReduce(k) => {
        let Ty::Vec(_, et) = &*t0.unwrap() else { panic!() };
        let V::A(x) = &av[0] else { panic!() };
        let mut acc = x[0].clone();
        for v in x[1..].iter() {
          acc = match k { 0 => self.binv(BinOp::Add, et, &acc, v), 1 => self.binv(BinOp::Or, et, &acc, v), 2 => self.binv(BinOp::And, et, &acc, v), 4 => self.binv(BinOp::Xor, et, &acc, v), _ => self.minmax(Pred::Ugt, et, &acc, v) };
        }
        done!(Some(acc))
      }
      Unk => Err(format!("unmodelled intrinsic {}", self.m.fns[id as usize].name)),
    }
  }
  fn minmax(&mut self, p: Pred, t: &Ty, a: &V, b: &V) -> V {
    if let (Ty::Vec(_, et), V::A(x), V::A(y)) = (t, a, b) { return V::A(x.iter().zip(y.iter()).map(|(u, v)| self.minmax(p, et, u, v)).collect()); }
    match self.cmpv(p, t, a, b) { V::C(x) => if x != 0 { a.clone() } else { b.clone() }, V::S(e) => self.itev(e, t, a, b), _ => panic!() }
  }
  fn satv(&mut self, add: bool, t: &Ty, a: &V, b: &V) -> V {
    if let (Ty::Vec(_, et), V::A(x), V::A(y)) = (t, a, b) { return V::A(x.iter().zip(y.iter()).map(|(u, v)| self.satv(add, et, u, v)).collect()); }
    let r = self.binv(if add { BinOp::Add } else { BinOp::Sub }, t, a, b);
    let (o, lim) = if add { (self.cmpv(Pred::Ult, t, &r, a), kint(u128::MAX, t.bits())) } else { (self.cmpv(Pred::Ult, t, a, b), V::C(0)) };
    match o { V::C(x) => if x != 0 { lim } else { r }, V::S(e) => self.itev(e, t, &lim, &r), _ => panic!() }
  }
}
fn conc_default(av: &[V]) -> u64 { match av.get(1) { Some(V::C(x)) => *x, _ => 0 } }
fn same(a: &V, b: &V) -> bool { match (a, b) { (V::C(x), V::C(y)) => x == y, (V::W(x), V::W(y)) => x == y, (V::S(x), V::S(y)) => x == y, _ => false } }
fn insv(a: &V, e: &V, idx: &[u32]) -> V {
  let V::A(x) = a else { panic!("insertvalue") };
  let mut x = x.to_vec();
  let i = idx[0] as usize;
  x[i] = if idx.len() == 1 { e.clone() } else { insv(&x[i], e, &idx[1..]) };
  V::A(x.into())
}
fn init_mem(mem: &mut Mem, a: u64, t: &Ty, v: &V) {
  match (t, v) {
    (Ty::Struct { elems, offs, .. }, V::A(x)) => for i in 0..elems.len() { init_mem(mem, a + offs[i], &elems[i], &x[i]) },
    (Ty::Arr(_, e), V::A(x)) if **e == Ty::Int(8) => { let b: Vec<u8> = x.iter().map(|v| if let V::C(c) = v { *c as u8 } else { 0 }).collect(); mem.write_concrete(a, &b) }
    (Ty::Arr(_, e) | Ty::Vec(_, e), V::A(x)) => { let s = e.size(); for (i, v) in x.iter().enumerate() { init_mem(mem, a + i as u64 * s, e, v) } }
    (t, v) => { let n = t.store() as usize; if n > 0 { mem.write_c(a, n, match v { V::C(x) => *x as u128, V::W(x) => **x, _ => panic!() }) } }
  }
}
pub fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
  o.push('"');
  o
}
fn jin(i: &[(String, u16, u128)]) -> String { format!("[{}]", i.iter().map(|(n, w, v)| format!("[{},{},{}]", js(n), w, v)).collect::<Vec<_>>().join(",")) }
pub fn short_name(n: &str) -> String {
  // last two path segments of a legacy-mangled name
  let Some(mut r) = n.strip_prefix("_ZN") else { return n.into() };
  let mut segs = vec![];
  loop {
    let d = r.bytes().take_while(|c| c.is_ascii_digit()).count();
    if d == 0 { break; }
    let k: usize = r[..d].parse().unwrap_or(0);
    if r.len() < d + k { break; }
    segs.push(&r[d..d + k]);
    r = &r[d + k..];
  }
  if segs.last().map_or(false, |s| s.len() == 17 && s.starts_with('h')) { segs.pop(); }
  let k = segs.len().saturating_sub(2);
  segs[k..].join("::")
}
