//! Hash-consed bit-vector expressions (widths 1..=128) with local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
  fn finish(&self) -> u64 { self.0 }
  fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
  fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
  fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
  fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
  fn write_u64(&mut self, i: u64) {
    self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    self.0 ^= self.0 >> 29;
  }
  fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
  fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
  Eq, Ult, Ule, Slt, Sle,
  Ite, Concat, Extract, ZExt, SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

pub struct Arena {
  pub nodes: Vec<Node>,
  map: FxMap<Node, Eid>,
  consts: Vec<u128>,
  cmap: FxMap<u128, u32>,
  pub vars: Vec<(String, u16)>,
  /// Per node: 0 no variable, NONE several, otherwise the one variable below it.
  sv: Vec<u32>,
  lzs: Vec<u16>,
  ext: FxMap<(Eid, u32), Eid>,
  tabs: FxMap<Eid, std::rc::Rc<Vec<u128>>>,
  masks: FxMap<Eid, Set256>,
}
pub const MANY: u32 = u32::MAX;
/// A set of 8-bit values.
pub type Set256 = [u64; 4];
pub const FULL: Set256 = [u64::MAX; 4];
pub fn s_and(a: &Set256, b: &Set256) -> Set256 { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn s_diff(a: &Set256, b: &Set256) -> Set256 { [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]] }
pub fn s_empty(a: &Set256) -> bool { *a == [0; 4] }
pub fn s_has(a: &Set256, v: usize) -> bool { a[v >> 6] >> (v & 63) & 1 != 0 }
pub fn s_first(a: &Set256) -> usize { (0..256).find(|v| s_has(a, *v)).unwrap() }

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext128(v: u128, w: u16) -> i128 {
  let s = 128 - w as u32;
  ((v << s) as i128) >> s
}

pub fn eval_bin(op: Op, w: u16, a: u128, b: u128) -> u128 {
  let m = mask(w);
  match op {
    Op::Add => a.wrapping_add(b) & m,
    Op::Sub => a.wrapping_sub(b) & m,
    Op::Mul => a.wrapping_mul(b) & m,
    Op::UDiv => if b == 0 { m } else { a / b },
    Op::URem => if b == 0 { a } else { a % b },
    Op::SDiv => {
      let (x, y) = (sext128(a, w), sext128(b, w));
      if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
    }
    Op::SRem => {
      let (x, y) = (sext128(a, w), sext128(b, w));
      if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
    }
    Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
    Op::LShr => if b >= w as u128 { 0 } else { a >> b },
    Op::AShr => {
      let x = sext128(a, w);
      let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
      ((x >> s) as u128) & m
    }
    Op::And => a & b,
    Op::Or => a | b,
    Op::Xor => a ^ b,
    Op::Eq => (a == b) as u128,
    Op::Ult => (a < b) as u128,
    Op::Ule => (a <= b) as u128,
    Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
    Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
    _ => unreachable!(),
  }
}

impl Arena {
  pub fn new() -> Self {
    let mut s = Arena { nodes: vec![], map: Default::default(), consts: vec![], cmap: Default::default(), vars: vec![], sv: vec![], lzs: vec![], ext: Default::default(), tabs: Default::default(), masks: Default::default() };
    // id 0 is reserved ("concrete byte" in memory)
    s.konst(0xdead_beef, 128);
    s
  }
  fn mk(&mut self, n: Node) -> Eid {
    if let Some(&e) = self.map.get(&n) { return e; }
    let id = self.nodes.len() as Eid;
    let j = |a: u32, b: u32| if a == 0 || a == b { b } else if b == 0 { a } else { MANY };
    let sv = match n.op {
      Op::Const => 0, Op::Var => id,
      Op::Extract | Op::ZExt | Op::SExt => self.sv[n.a as usize],
      Op::Ite => j(j(self.sv[n.a as usize], self.sv[n.b as usize]), self.sv[n.c as usize]),
      _ => j(self.sv[n.a as usize], self.sv[n.b as usize]),
    };
    self.sv.push(sv);
    let lz = self.lz_of(&n);
    self.lzs.push(lz);
    self.nodes.push(n);
    self.map.insert(n, id);
    id
  }
  pub fn konst(&mut self, v: u128, w: u16) -> Eid {
    let v = v & mask(w);
    let ci = match self.cmap.get(&v) {
      Some(&i) => i,
      None => { let i = self.consts.len() as u32; self.consts.push(v); self.cmap.insert(v, i); i }
    };
    self.mk(Node { op: Op::Const, w, a: ci, b: 0, c: 0 })
  }
  pub fn var(&mut self, name: &str, w: u16) -> Eid {
    let i = self.vars.len() as u32;
    self.vars.push((name.to_string(), w));
    self.mk(Node { op: Op::Var, w, a: i, b: 0, c: 0 })
  }
  #[inline] pub fn n(&self, e: Eid) -> Node { self.nodes[e as usize] }
  #[inline] pub fn w(&self, e: Eid) -> u16 { self.nodes[e as usize].w }
  #[inline] pub fn cv(&self, e: Eid) -> Option<u128> {
    let n = self.nodes[e as usize];
    if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None }
  }
  pub fn not(&mut self, e: Eid) -> Eid {
    let w = self.w(e);
    let k = self.konst(mask(w), w);
    self.bin(Op::Xor, e, k)
  }
  pub fn and1(&mut self, a: Eid, b: Eid) -> Eid { self.bin(Op::And, a, b) }
  pub fn or1(&mut self, a: Eid, b: Eid) -> Eid { self.bin(Op::Or, a, b) }

  /// Number of leading bits known to be zero.
  fn lz(&self, e: Eid) -> u16 { self.lzs[e as usize] }
  fn lz_of(&self, n: &Node) -> u16 {
    match n.op {
      Op::Const => { let v = self.consts[n.a as usize]; n.w - (128 - v.leading_zeros()) as u16 }
      Op::ZExt => n.w - self.w(n.a) + self.lz(n.a),
      Op::Concat => { let l = self.lz(n.a); if l == self.w(n.a) { l + self.lz(n.b) } else { l } }
      Op::Ite => self.lz(n.b).min(self.lz(n.c)),
      Op::And => self.lz(n.a).max(self.lz(n.b)),
      Op::LShr => match self.cv(n.b) { Some(k) if k < n.w as u128 => (self.lz(n.a) + k as u16).min(n.w), _ => self.lz(n.a) },
      _ => 0,
    }
  }

  pub fn bin(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
    let w = self.w(a);
    debug_assert_eq!(w, self.w(b), "{op:?}");
    let (ca, cb) = (self.cv(a), self.cv(b));
    let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
    if let (Some(x), Some(y)) = (ca, cb) {
      return self.konst(eval_bin(op, w, x, y), rw);
    }
    // commute constants to the right
    let (a, b, ca, cb) = match op {
      Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq if ca.is_some() || (cb.is_none() && a > b) => (b, a, cb, ca),
      _ => (a, b, ca, cb),
    };
    let m = mask(w);
    match op {
      Op::Add => {
        if cb == Some(0) { return a; }
        if let Some(k) = cb {
          let n = self.n(a);
          if n.op == Op::Add { if let Some(k2) = self.cv(n.b) {
            let k3 = self.konst(k.wrapping_add(k2), w); return self.bin(Op::Add, n.a, k3);
          } }
          if n.op == Op::Ite && self.ite_leaves_const(a, 6) { return self.push_ite(op, a, b); }
        }
      }
      Op::Sub => {
        if cb == Some(0) { return a; }
        if a == b { return self.konst(0, w); }
        if let Some(k) = cb { let k = self.konst(k.wrapping_neg(), w); return self.bin(Op::Add, a, k); }
      }
      Op::Mul => {
        if cb == Some(0) { return b; }
        if cb == Some(1) { return a; }
        if let Some(k) = cb { if k.is_power_of_two() {
          let s = self.konst(k.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, s);
        }
        if self.ite_leaves_const(a, 6) { return self.push_ite(op, a, b); } }
      }
      Op::UDiv => {
        if cb == Some(1) { return a; }
        if let Some(k) = cb { if k.is_power_of_two() {
          let s = self.konst(k.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, s);
        } }
      }
      Op::URem => if let Some(k) = cb { if k.is_power_of_two() {
        let s = self.konst(k - 1, w); return self.bin(Op::And, a, s);
      } },
      Op::And => {
        if a == b { return a; }
        if cb == Some(0) { return b; }
        if cb == Some(m) { return a; }
        if let Some(k) = cb {
          let n = self.n(a);
          if n.op == Op::And { if let Some(k2) = self.cv(n.b) { let k3 = self.konst(k & k2, w); return self.bin(Op::And, n.a, k3); } }
          // low-bits mask of a narrow value
          if (k + 1).is_power_of_two() {
            let bits = (128 - k.leading_zeros()) as u16;
            if self.lz(a) >= w - bits { return a; }
            if bits >= 1 { let x = self.extract(a, bits - 1, 0); return self.zext(x, w); }
          }
          if n.op == Op::Ite && self.ite_leaves_const(a, 6) { return self.push_ite(op, a, b); }
        }
        if w == 1 {
          let na = self.not_of(a); let nb = self.not_of(b);
          if na == Some(b) || nb == Some(a) { return self.konst(0, 1); }
        }
      }
      Op::Or => {
        if a == b { return a; }
        if cb == Some(0) { return a; }
        if cb == Some(m) { return b; }
        if w == 1 {
          let na = self.not_of(a); let nb = self.not_of(b);
          if na == Some(b) || nb == Some(a) { return self.konst(1, 1); }
        } else {
          if let Some(r) = self.or_concat(a, b) { return r; }
        }
      }
      Op::Xor => {
        if a == b { return self.konst(0, w); }
        if cb == Some(0) { return a; }
        if let Some(k) = cb {
          let n = self.n(a);
          if n.op == Op::Xor { if let Some(k2) = self.cv(n.b) { let k3 = self.konst(k ^ k2, w); return self.bin(Op::Xor, n.a, k3); } }
          if n.op == Op::Ite && self.ite_leaves_const(a, 6) { return self.push_ite(op, a, b); }
        }
      }
      Op::Shl | Op::LShr | Op::AShr => {
        if cb == Some(0) { return a; }
        if ca == Some(0) { return a; }
        if let Some(k) = cb {
          if k >= w as u128 {
            if op != Op::AShr { return self.konst(0, w); }
          } else if op == Op::LShr {
            let x = self.extract(a, w - 1, k as u16);
            return self.zext(x, w);
          } else if op == Op::Shl {
            let x = self.extract(a, w - 1 - k as u16, 0);
            let z = self.konst(0, k as u16);
            return self.concat(x, z);
          }
        }
      }
      Op::Eq => {
        if a == b { return self.konst(1, 1); }
        if w == 1 {
          if cb == Some(1) { return a; }
          if cb == Some(0) { return self.not(a); }
        }
        if let Some(k) = cb {
          let n = self.n(a);
          match n.op {
            Op::ZExt => {
              let iw = self.w(n.a);
              if k > mask(iw) { return self.konst(0, 1); }
              let kk = self.konst(k, iw); return self.bin(Op::Eq, n.a, kk);
            }
            Op::Concat => {
              let lw = self.w(n.b);
              let hi = self.konst(k >> lw, w - lw); let lo = self.konst(k, lw);
              let x = self.bin(Op::Eq, n.a, hi); let y = self.bin(Op::Eq, n.b, lo);
              return self.bin(Op::And, x, y);
            }
            Op::Ite => {
              let (tc, ec) = (self.cv(n.b), self.cv(n.c));
              if tc.is_some() || ec.is_some() {
                let x = self.bin(Op::Eq, n.b, b); let y = self.bin(Op::Eq, n.c, b);
                return self.ite(n.a, x, y);
              }
            }
            Op::Add => if let Some(k2) = self.cv(n.b) {
              let k3 = self.konst(k.wrapping_sub(k2), w); return self.bin(Op::Eq, n.a, k3);
            },
            Op::Xor => if let Some(k2) = self.cv(n.b) {
              let k3 = self.konst(k ^ k2, w); return self.bin(Op::Eq, n.a, k3);
            },
            _ => {}
          }
        } else {
          let (na, nb) = (self.n(a), self.n(b));
          if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
        }
      }
      Op::Ult => {
        if a == b { return self.konst(0, 1); }
        if cb == Some(0) { return self.konst(0, 1); }
        if ca == Some(m) { return self.konst(0, 1); }
        if cb == Some(1) { let z = self.konst(0, w); return self.bin(Op::Eq, a, z); }
        if ca == Some(0) { let e = self.bin(Op::Eq, b, a); return self.not(e); }
        if let Some(k) = cb {
          if k > mask(w - self.lz(a)) { return self.konst(1, 1); }
          let n = self.n(a);
          if n.op == Op::ZExt { let iw = self.w(n.a); let kk = self.konst(k, iw); return self.bin(Op::Ult, n.a, kk); }
          if n.op == Op::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
            let x = self.bin(op, n.b, b); let y = self.bin(op, n.c, b); return self.ite(n.a, x, y);
          }
        }
        if let Some(k) = ca {
          if k >= mask(w - self.lz(b)) { return self.konst(0, 1); }
          let n = self.n(b);
          if n.op == Op::ZExt { let iw = self.w(n.a); let kk = self.konst(k, iw); return self.bin(Op::Ult, kk, n.a); }
          if n.op == Op::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
            let x = self.bin(op, a, n.b); let y = self.bin(op, a, n.c); return self.ite(n.a, x, y);
          }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ult, na.a, nb.a); }
      }
      Op::Ule => { let x = self.bin(Op::Ult, b, a); return self.not(x); }
      Op::Slt => {
        if a == b { return self.konst(0, 1); }
        if w > 1 && self.lz(a) >= 1 && self.lz(b) >= 1 { return self.bin(Op::Ult, a, b); }
        if let Some(k) = cb { let n = self.n(a);
          let _ = k;
          if n.op == Op::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
            let x = self.bin(op, n.b, b); let y = self.bin(op, n.c, b); return self.ite(n.a, x, y);
          } }
        if ca.is_some() { let n = self.n(b);
          if n.op == Op::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
            let x = self.bin(op, a, n.b); let y = self.bin(op, a, n.c); return self.ite(n.a, x, y);
          } }
      }
      Op::Sle => { let x = self.bin(Op::Slt, b, a); return self.not(x); }
      _ => {}
    }
    self.mk(Node { op, w: rw, a, b, c: 0 })
  }

  /// If e is `x ^ 1` (width 1), x.
  fn not_of(&self, e: Eid) -> Option<Eid> {
    let n = self.n(e);
    if n.op == Op::Xor && n.w == 1 && self.cv(n.b) == Some(1) { Some(n.a) } else { None }
  }
  fn ite_leaves_const(&self, e: Eid, depth: u32) -> bool {
    let n = self.n(e);
    match n.op {
      Op::Const => true,
      Op::Ite => depth > 0 && self.ite_leaves_const(n.b, depth - 1) && self.ite_leaves_const(n.c, depth - 1),
      _ => false,
    }
  }
  fn push_ite(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
    let n = self.n(a);
    if n.op != Op::Ite { return self.bin(op, a, b); }
    let x = self.push_ite(op, n.b, b); let y = self.push_ite(op, n.c, b);
    self.ite(n.a, x, y)
  }
  /// zext(x) | (y << k) with disjoint bits becomes a concatenation.
  fn or_concat(&mut self, a: Eid, b: Eid) -> Option<Eid> {
    let w = self.w(a);
    for (x, y) in [(a, b), (b, a)] {
      // y = Concat(hi, 0_k); x has at least w-k leading zeros
      let n = self.n(y);
      if n.op == Op::Concat && self.cv(n.b) == Some(0) {
        let k = self.w(n.b);
        if self.lz(x) >= w - k { let lo = self.extract(x, k - 1, 0); return Some(self.concat(n.a, lo)); }
      }
      // y = Concat(0, Concat(mid, 0_k))
      if n.op == Op::ZExt {
        let n2 = self.n(n.a);
        if n2.op == Op::Concat && self.cv(n2.b) == Some(0) {
          let k = self.w(n2.b);
          if self.lz(x) >= w - k { let lo = self.extract(x, k - 1, 0); let c = self.concat(n2.a, lo); return Some(self.zext(c, w)); }
        }
      }
    }
    None
  }
  pub fn ite(&mut self, c: Eid, t: Eid, e: Eid) -> Eid {
    if let Some(v) = self.cv(c) { return if v != 0 { t } else { e }; }
    if t == e { return t; }
    let w = self.w(t);
    debug_assert_eq!(w, self.w(e));
    if let Some(x) = self.not_of(c) { return self.ite(x, e, t); }
    if w == 1 {
      match (self.cv(t), self.cv(e)) {
        (Some(1), Some(0)) => return c,
        (Some(0), Some(1)) => return self.not(c),
        (Some(1), None) => return self.bin(Op::Or, c, e),
        (Some(0), None) => { let nc = self.not(c); return self.bin(Op::And, nc, e); }
        (None, Some(0)) => return self.bin(Op::And, c, t),
        (None, Some(1)) => { let nc = self.not(c); return self.bin(Op::Or, nc, t); }
        _ => {}
      }
    }
    let (nt, ne) = (self.n(t), self.n(e));
    if nt.op == Op::Ite && nt.a == c { return self.ite(c, nt.b, e); }
    if ne.op == Op::Ite && ne.a == c { return self.ite(c, t, ne.c); }
    // ite(c, t, ite(d, t, x)) = ite(c|d, t, x)
    if ne.op == Op::Ite && ne.b == t { let d = self.bin(Op::Or, c, ne.a); return self.ite(d, t, ne.c); }
    self.mk(Node { op: Op::Ite, w, a: c, b: t, c: e })
  }
  pub fn concat(&mut self, hi: Eid, lo: Eid) -> Eid {
    let (wh, wl) = (self.w(hi), self.w(lo));
    let w = wh + wl;
    if let (Some(x), Some(y)) = (self.cv(hi), self.cv(lo)) { return self.konst((x << wl) | y, w); }
    if self.cv(hi) == Some(0) { return self.zext(lo, w); }
    let (nh, nl) = (self.n(hi), self.n(lo));
    if nh.op == Op::Extract {
      if nl.op == Op::Extract && nh.a == nl.a && nh.c == nl.b + 1 { return self.extract(nh.a, nh.b as u16, nl.c as u16); }
      // hi = x[h..wl], lo = x entire low bits
      if nh.a == lo && false { unreachable!(); }
      if nl.op == Op::Concat {
        let nn = self.n(nl.a);
        if nn.op == Op::Extract && nn.a == nh.a && nh.c == nn.b + 1 {
          let x = self.extract(nh.a, nh.b as u16, nn.c as u16);
          return self.concat(x, nl.b);
        }
      }
    }
    // concat(extract(ite..)) left alone
    if nh.op == Op::Concat {
      let y = self.n(nh.b);
      if y.op == Op::Extract && nl.op == Op::Extract && y.a == nl.a && y.c == nl.b + 1 {
        let x = self.extract(nl.a, y.b as u16, nl.c as u16);
        return self.concat(nh.a, x);
      }
      if self.cv(nh.b).is_some() && self.cv(lo).is_some() {
        let x = self.concat(nh.b, lo); return self.concat(nh.a, x);
      }
    }
    if nh.op == Op::ZExt {
      let c = self.concat(nh.a, lo); return self.zext(c, w);
    }
    if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
      let x = self.concat(nh.b, nl.b); let y = self.concat(nh.c, nl.c); return self.ite(nh.a, x, y);
    }
    self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0 })
  }
  pub fn extract(&mut self, e: Eid, hi: u16, lo: u16) -> Eid {
    let w = self.w(e);
    if lo == 0 && hi == w - 1 { return e; }
    let n = self.n(e);
    if matches!(n.op, Op::Concat | Op::ZExt | Op::Ite | Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul) {
      let k = (e, (hi as u32) << 16 | lo as u32);
      if let Some(&r) = self.ext.get(&k) { return r; }
      let r = self.extract_in(n, e, hi, lo);
      self.ext.insert(k, r);
      return r;
    }
    self.extract_in(n, e, hi, lo)
  }
  fn extract_in(&mut self, n: Node, e: Eid, hi: u16, lo: u16) -> Eid {
    let rw = hi - lo + 1;
    match n.op {
      Op::Const => { let v = self.consts[n.a as usize]; return self.konst(v >> lo, rw); }
      Op::Extract => return self.extract(n.a, hi + n.c as u16, lo + n.c as u16),
      Op::Concat => {
        let wl = self.w(n.b);
        if hi < wl { return self.extract(n.b, hi, lo); }
        if lo >= wl { return self.extract(n.a, hi - wl, lo - wl); }
        let x = self.extract(n.a, hi - wl, 0); let y = self.extract(n.b, wl - 1, lo);
        return self.concat(x, y);
      }
      Op::ZExt => {
        let iw = self.w(n.a);
        if hi < iw { return self.extract(n.a, hi, lo); }
        if lo >= iw { return self.konst(0, rw); }
        let x = self.extract(n.a, iw - 1, lo); return self.zext(x, rw);
      }
      Op::SExt => { let iw = self.w(n.a); if hi < iw { return self.extract(n.a, hi, lo); } }
      Op::Ite => {
        let x = self.extract(n.b, hi, lo); let y = self.extract(n.c, hi, lo); return self.ite(n.a, x, y);
      }
      Op::And | Op::Or | Op::Xor => {
        let x = self.extract(n.a, hi, lo); let y = self.extract(n.b, hi, lo); return self.bin(n.op, x, y);
      }
      Op::Add | Op::Sub | Op::Mul if lo == 0 => {
        let x = self.extract(n.a, hi, 0); let y = self.extract(n.b, hi, 0); return self.bin(n.op, x, y);
      }
      _ => {}
    }
    self.mk(Node { op: Op::Extract, w: rw, a: e, b: hi as u32, c: lo as u32 })
  }
  pub fn zext(&mut self, e: Eid, w: u16) -> Eid {
    let ew = self.w(e);
    if ew == w { return e; }
    let n = self.n(e);
    match n.op {
      Op::Const => { let v = self.consts[n.a as usize]; return self.konst(v, w); }
      Op::ZExt => return self.zext(n.a, w),
      Op::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() => {
        let x = self.zext(n.b, w); let y = self.zext(n.c, w); return self.ite(n.a, x, y);
      }
      _ => {}
    }
    self.mk(Node { op: Op::ZExt, w, a: e, b: 0, c: 0 })
  }
  pub fn sext(&mut self, e: Eid, w: u16) -> Eid {
    let ew = self.w(e);
    if ew == w { return e; }
    let n = self.n(e);
    if n.op == Op::Const { let v = self.consts[n.a as usize]; return self.konst(sext128(v, ew) as u128, w); }
    if self.lz(e) > 0 { return self.zext(e, w); }
    if n.op == Op::Ite {
      let x = self.sext(n.b, w); let y = self.sext(n.c, w); return self.ite(n.a, x, y);
    }
    self.mk(Node { op: Op::SExt, w, a: e, b: 0, c: 0 })
  }

  pub fn eval(&self, e: Eid, m: &[u128], memo: &mut FxMap<Eid, u128>) -> u128 {
    let n = self.n(e);
    match n.op {
      Op::Const => return self.consts[n.a as usize],
      Op::Var => return m.get(n.a as usize).copied().unwrap_or(0),
      _ => {}
    }
    if let Some(&v) = memo.get(&e) { return v; }
    let r = match n.op {
      Op::Ite => if self.eval(n.a, m, memo) != 0 { self.eval(n.b, m, memo) } else { self.eval(n.c, m, memo) },
      Op::Concat => (self.eval(n.a, m, memo) << self.w(n.b)) | self.eval(n.b, m, memo),
      Op::Extract => (self.eval(n.a, m, memo) >> n.c) & mask(n.w),
      Op::ZExt => self.eval(n.a, m, memo),
      Op::SExt => (sext128(self.eval(n.a, m, memo), self.w(n.a)) as u128) & mask(n.w),
      _ => { let (x, y) = (self.eval(n.a, m, memo), self.eval(n.b, m, memo)); eval_bin(n.op, self.w(n.a), x, y) }
    };
    memo.insert(e, r);
    r
  }
  /// The one variable of at most 8 bits that e depends on, if so.
  pub fn small_var(&self, e: Eid) -> Option<Eid> {
    let v = self.sv[e as usize];
    if v != 0 && v != MANY && self.w(v) <= 8 { Some(v) } else { None }
  }
  /// All values of a small_var expression, indexed by the variable's value.
  pub fn table(&mut self, e: Eid) -> std::rc::Rc<Vec<u128>> {
    if let Some(t) = self.tabs.get(&e) { return t.clone(); }
    let n = self.n(e);
    let r: Vec<u128> = match n.op {
      Op::Const => vec![self.consts[n.a as usize]; 256],
      Op::Var => (0..256u128).collect(),
      Op::Ite => { let (a, b, c) = (self.table(n.a), self.table(n.b), self.table(n.c)); (0..256).map(|i| if a[i] != 0 { b[i] } else { c[i] }).collect() }
      Op::Concat => { let (a, b) = (self.table(n.a), self.table(n.b)); let k = self.w(n.b); (0..256).map(|i| a[i] << k | b[i]).collect() }
      Op::Extract => { let a = self.table(n.a); a.iter().map(|x| (x >> n.c) & mask(n.w)).collect() }
      Op::ZExt => return self.table(n.a),
      Op::SExt => { let k = self.w(n.a); let a = self.table(n.a); a.iter().map(|x| (sext128(*x, k) as u128) & mask(n.w)).collect() }
      _ => { let k = self.w(n.a); let (a, b) = (self.table(n.a), self.table(n.b)); (0..256).map(|i| eval_bin(n.op, k, a[i], b[i])).collect() }
    };
    if self.tabs.len() > 20000 { self.tabs.clear(); }
    let r = std::rc::Rc::new(r);
    self.tabs.insert(e, r.clone());
    r
  }
  /// The values of its variable for which a width-1 small_var expression holds.
  pub fn truth(&mut self, e: Eid) -> Set256 {
    if let Some(m) = self.masks.get(&e) { return *m; }
    let t = self.table(e);
    let mut m = [0u64; 4];
    for v in 0..256 { if t[v] != 0 { m[v >> 6] |= 1 << (v & 63); } }
    self.masks.insert(e, m);
    m
  }
  /// An expression that holds for the values in `yes` and not for those in `no`.
  pub fn in_set(&mut self, var: Eid, yes: &Set256, no: &Set256) -> Eid {
    let w = self.w(var);
    let top = 1usize << w;
    let mut r = self.konst(0, 1);
    let mut v = 0;
    while v < top {
      if !s_has(yes, v) { v += 1; continue; }
      let (lo, mut hi) = (v, v);
      let mut q = v + 1;
      while q < top && !s_has(no, q) { if s_has(yes, q) { hi = q; } q += 1; }
      let (kl, kh) = (self.konst(lo as u128, w), self.konst(hi as u128, w));
      let c = if lo == hi { self.bin(Op::Eq, var, kl) } else { let a = self.bin(Op::Ule, kl, var); let b = self.bin(Op::Ule, var, kh); self.and1(a, b) };
      r = self.or1(r, c);
      v = hi + 1;
    }
    r
  }
  pub fn show(&self, e: Eid, d: u32) -> String {
    let n = self.n(e);
    if d == 0 && n.op != Op::Const && n.op != Op::Var { return "..".into(); }
    match n.op {
      Op::Const => format!("{:#x}", self.consts[n.a as usize]), Op::Var => format!("v{}", n.a),
      Op::Extract => format!("{}[{}:{}]", self.show(n.a, d - 1), n.b, n.c), Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
      Op::Ite => format!("({} ? {} : {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
      _ => format!("({:?} {} {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
    }
  }
  /// Split a condition into conjuncts.
  pub fn conjuncts(&mut self, c: Eid, out: &mut Vec<Eid>) {
    let mut seen: std::collections::HashSet<Eid, FxB> = Default::default();
    self.conjuncts_in(c, out, &mut seen);
  }
  fn conjuncts_in(&mut self, c: Eid, out: &mut Vec<Eid>, seen: &mut std::collections::HashSet<Eid, FxB>) {
    if !seen.insert(c) { return; }
    let n = self.n(c);
    if n.w == 1 && n.op == Op::And { self.conjuncts_in(n.a, out, seen); self.conjuncts_in(n.b, out, seen); return; }
    if let Some(x) = self.not_of(c) {
      let m = self.n(x);
      if m.op == Op::Or { let (a, b) = (self.not(m.a), self.not(m.b)); self.conjuncts_in(a, out, seen); self.conjuncts_in(b, out, seen); return; }
    }
    if self.cv(c) == Some(1) { return; }
    out.push(c);
  }
  /// Variables below e, and the number of distinct nodes (bounded).
  pub fn vars_of(&self, e: Eid) -> (Vec<u32>, usize) {
    let mut seen: std::collections::HashSet<u32, FxB> = Default::default();
    let mut st = vec![e];
    let mut vs = vec![];
    while let Some(x) = st.pop() {
      if !seen.insert(x) { continue; }
      let n = self.n(x);
      match n.op {
        Op::Const => {}
        Op::Var => vs.push(x),
        Op::ZExt | Op::SExt | Op::Extract => st.push(n.a),
        Op::Ite => { st.push(n.a); st.push(n.b); st.push(n.c) }
        _ => { st.push(n.a); st.push(n.b) }
      }
    }
    vs.sort();
    (vs, seen.len())
  }
}
