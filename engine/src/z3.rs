//! A thin binding to libz3: an incremental QF_BV solver whose assertion stack follows a path condition.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
extern "C" {
  fn Z3_mk_config() -> P;
  fn Z3_mk_context_rc(c: P) -> P;
  fn Z3_inc_ref(c: P, a: P);
  fn Z3_mk_solver(c: P) -> P;
  fn Z3_mk_simple_solver(c: P) -> P;
  fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
  fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
  fn Z3_solver_inc_ref(c: P, s: P);
  fn Z3_solver_push(c: P, s: P);
  fn Z3_solver_pop(c: P, s: P, n: c_uint);
  fn Z3_solver_assert(c: P, s: P, a: P);
  fn Z3_solver_check(c: P, s: P) -> c_int;
  fn Z3_solver_get_model(c: P, s: P) -> P;
  fn Z3_solver_set_params(c: P, s: P, p: P);
  fn Z3_mk_params(c: P) -> P;
  fn Z3_params_inc_ref(c: P, p: P);
  fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
  fn Z3_model_inc_ref(c: P, m: P);
  fn Z3_model_dec_ref(c: P, m: P);
  fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
  fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
  fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
  fn Z3_get_bool_value(c: P, a: P) -> c_int;
  fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
  fn Z3_mk_bool_sort(c: P) -> P;
  fn Z3_mk_const(c: P, s: P, t: P) -> P;
  fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
  fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
  fn Z3_mk_true(c: P) -> P;
  fn Z3_mk_false(c: P) -> P;
  fn Z3_mk_not(c: P, a: P) -> P;
  fn Z3_mk_eq(c: P, a: P, b: P) -> P;
  fn Z3_mk_xor(c: P, a: P, b: P) -> P;
  fn Z3_mk_iff(c: P, a: P, b: P) -> P;
  fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
  fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
  fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
  fn Z3_mk_concat(c: P, a: P, b: P) -> P;
  fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
  fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
  fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
  fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
  fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
  fn Z3_get_full_version() -> *const c_char;
}

pub struct Solver {
  c: P,
  s: P,
  s2: P,
  stack: Vec<Eid>,
  memo: FxMap<Eid, P>,
  vars: Vec<P>,
  pub queries: u64,
  pub sat: u64,
  pub unsat: u64,
  pub unknown: u64,
  pub nanos: u64,
  pub dump: Option<String>,
}

pub enum Res { Sat(Vec<u128>), Unsat, Unknown }

pub fn version() -> String {
  unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
  pub fn new(timeout_ms: u32) -> Self {
    unsafe {
      let c = Z3_mk_context_rc(Z3_mk_config());
      let kind = std::env::var("VSYM_SOLVER").unwrap_or_default();
      // the context keeps only the newest object alive by itself
      let mk = |k: &str| { let s = match k {
        "default" => Z3_mk_solver(c),
        "qfbv" => { let l = CString::new("QF_BV").unwrap(); Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())) }
        _ => Z3_mk_simple_solver(c),
      }; Z3_solver_inc_ref(c, s); s };
      let s = mk(if kind.is_empty() { "qfbv" } else { &kind });
      let s2 = mk(&std::env::var("VSYM_SOLVER2").unwrap_or_else(|_| "simple".into()));
      let p = Z3_mk_params(c);
      Z3_params_inc_ref(c, p);
      let k = CString::new("timeout").unwrap();
      Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
      Z3_solver_set_params(c, s, p);
      Z3_solver_set_params(c, s2, p);
      Solver { c, s, s2, stack: vec![], memo: Default::default(), vars: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, nanos: 0, dump: None }
    }
  }
  fn var(&mut self, ar: &Arena, i: u32) -> P {
    while self.vars.len() <= i as usize {
      let j = self.vars.len();
      let w = ar.vars[j].1;
      unsafe {
        let n = CString::new(format!("v{j}")).unwrap();
        let sort = if w == 1 { Z3_mk_bool_sort(self.c) } else { Z3_mk_bv_sort(self.c, w as c_uint) };
        let a = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), sort);
        Z3_inc_ref(self.c, a);
        self.vars.push(a);
      }
    }
    self.vars[i as usize]
  }
  /// Width-1 expressions are translated to Bool, wider ones to bit-vectors.
  fn tr(&mut self, ar: &Arena, e: Eid) -> P {
    if let Some(&p) = self.memo.get(&e) { return p; }
    let n = ar.n(e);
    let c = self.c;
    unsafe {
      let r = match n.op {
        Op::Const => {
          let v = ar.cv(e).unwrap();
          if n.w == 1 { if v != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) } }
          else if n.w <= 64 { Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, n.w as c_uint)) }
          else { let s = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, n.w as c_uint)) }
        }
        Op::Var => self.var(ar, n.a),
        Op::Ite => { let (x, y, z) = (self.tr(ar, n.a), self.tr(ar, n.b), self.tr(ar, n.c)); Z3_mk_ite(c, x, y, z) }
        Op::Concat => { let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b)); Z3_mk_concat(c, x, y) }
        Op::Extract => { let x = self.bv(ar, n.a); let y = Z3_mk_extract(c, n.b, n.c, x); if n.w == 1 { self.to_bool(y) } else { y } }
        Op::ZExt => { let x = self.bv(ar, n.a); Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, x) }
        Op::SExt => { let x = self.bv(ar, n.a); Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, x) }
        _ => {
          let ow = ar.w(n.a);
          if ow == 1 {
            let (x, y) = (self.tr(ar, n.a), self.tr(ar, n.b));
            let ab = [x, y];
            match n.op {
              Op::And | Op::Mul => Z3_mk_and(c, 2, ab.as_ptr()),
              Op::Or => Z3_mk_or(c, 2, ab.as_ptr()),
              Op::Xor | Op::Add | Op::Sub => {
                if ar.cv(n.b) == Some(1) { Z3_mk_not(c, x) } else { Z3_mk_xor(c, x, y) }
              }
              Op::Eq => Z3_mk_iff(c, x, y),
              Op::Ult => { let nx = Z3_mk_not(c, x); Z3_inc_ref(c, nx); let l = [nx, y]; Z3_mk_and(c, 2, l.as_ptr()) }
              Op::Slt => { let ny = Z3_mk_not(c, y); Z3_inc_ref(c, ny); let l = [x, ny]; Z3_mk_and(c, 2, l.as_ptr()) }
              _ => {
                let (x, y) = (self.bv(ar, n.a), self.bv(ar, n.b));
                let r = self.bvop(n.op, x, y);
                self.to_bool(r)
              }
            }
          } else {
            let (x, y) = (self.tr(ar, n.a), self.tr(ar, n.b));
            self.bvop(n.op, x, y)
          }
        }
      };
      Z3_inc_ref(c, r);
      self.memo.insert(e, r);
      r
    }
  }
  fn bvop(&self, op: Op, x: P, y: P) -> P {
    let c = self.c;
    unsafe {
      match op {
        Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
        Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y),
        Op::URem => Z3_mk_bvurem(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
        Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
        Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
        Op::Eq => Z3_mk_eq(c, x, y), Op::Ult => Z3_mk_bvult(c, x, y), Op::Ule => Z3_mk_bvule(c, x, y),
        Op::Slt => Z3_mk_bvslt(c, x, y), Op::Sle => Z3_mk_bvsle(c, x, y),
        _ => unreachable!(),
      }
    }
  }
  fn bv(&mut self, ar: &Arena, e: Eid) -> P {
    let p = self.tr(ar, e);
    if ar.w(e) != 1 { return p; }
    unsafe {
      let c = self.c;
      let s = Z3_mk_bv_sort(c, 1);
      Z3_inc_ref(c, s);
      let o = Z3_mk_unsigned_int64(c, 1, s);
      Z3_inc_ref(c, o);
      let z = Z3_mk_unsigned_int64(c, 0, s);
      Z3_inc_ref(c, z);
      let r = Z3_mk_ite(c, p, o, z);
      Z3_inc_ref(c, r);
      r
    }
  }
  fn to_bool(&self, y: P) -> P {
    unsafe {
      let c = self.c;
      Z3_inc_ref(c, y);
      let o = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
      Z3_inc_ref(c, o);
      Z3_mk_eq(c, y, o)
    }
  }
  fn sync(&mut self, ar: &Arena, pc: &[Eid]) {
    let mut k = 0;
    while k < self.stack.len() && k < pc.len() && self.stack[k] == pc[k] { k += 1; }
    unsafe {
      if self.stack.len() > k { Z3_solver_pop(self.c, self.s, (self.stack.len() - k) as c_uint); self.stack.truncate(k); }
      while self.stack.len() < pc.len() {
        let e = pc[self.stack.len()];
        let a = self.tr(ar, e);
        Z3_solver_push(self.c, self.s);
        Z3_solver_assert(self.c, self.s, a);
        self.stack.push(e);
      }
    }
  }
  /// Is pc /\ extra satisfiable?
  pub fn check(&mut self, ar: &Arena, pc: &[Eid], extra: Option<Eid>) -> Res {
    let t = std::time::Instant::now();
    self.queries += 1;
    self.sync(ar, pc);
    let r = unsafe {
      if let Some(e) = extra {
        let a = self.tr(ar, e);
        Z3_solver_push(self.c, self.s);
        Z3_solver_assert(self.c, self.s, a);
      }
      let r = Z3_solver_check(self.c, self.s);
      let out = match r {
        1 => {
          let all: Vec<usize> = (0..self.vars.len().min(ar.vars.len())).collect();
          let vals = self.model(ar, self.s, &all);
          self.sat += 1;
          Res::Sat(vals)
        }
        -1 => { self.unsat += 1; Res::Unsat }
        _ => { self.unknown += 1; Res::Unknown }
      };
      if extra.is_some() { Z3_solver_pop(self.c, self.s, 1); }
      out
    };
    self.nanos += t.elapsed().as_nanos() as u64;
    r
  }
  /// Are these constraints satisfiable together? The model gives values for `vars` only (indices), others 0.
  pub fn check_set(&mut self, ar: &Arena, cs: &[Eid], vars: &[usize]) -> Res {
    let t = std::time::Instant::now();
    self.queries += 1;
    let ts: Vec<P> = cs.iter().map(|c| self.tr(ar, *c)).collect();
    for v in vars { self.var(ar, *v as u32); }
    let r = unsafe {
      Z3_solver_push(self.c, self.s2);
      for a in ts { Z3_solver_assert(self.c, self.s2, a); }
      let r = match Z3_solver_check(self.c, self.s2) {
        1 => { self.sat += 1; Res::Sat(self.model(ar, self.s2, vars)) }
        -1 => { self.unsat += 1; Res::Unsat }
        _ => { self.unknown += 1; Res::Unknown }
      };
      Z3_solver_pop(self.c, self.s2, 1);
      r
    };
    self.nanos += t.elapsed().as_nanos() as u64;
    r
  }
  unsafe fn model(&self, ar: &Arena, s: P, vars: &[usize]) -> Vec<u128> {
          let m = Z3_solver_get_model(self.c, s);
          Z3_model_inc_ref(self.c, m);
          let mut vals = vec![0u128; ar.vars.len()];
          for &i in vars {
            let mut v: P = std::ptr::null_mut();
            Z3_model_eval(self.c, m, self.vars[i], true, &mut v);
            vals[i] = if ar.vars[i].1 == 1 { (Z3_get_bool_value(self.c, v) == 1) as u128 }
            else if ar.vars[i].1 <= 64 { let mut x = 0u64; Z3_get_numeral_uint64(self.c, v, &mut x); x as u128 }
            else {
              let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, v)).to_str().unwrap();
              s.parse::<u128>().unwrap()
            };
          }
          Z3_model_dec_ref(self.c, m);
          vals
  }
}
