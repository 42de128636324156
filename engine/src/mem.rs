//! Flat byte memory with copy-on-write pages; each byte is concrete or names a symbolic 8-bit expression.
use crate::expr::*;
use std::rc::Rc;

pub const PB: u64 = 10;
pub const PS: usize = 1 << PB;

#[derive(Clone)]
pub struct Page { pub d: [u8; PS], pub s: Option<Box<[Eid; PS]>> }

#[derive(Clone)]
pub struct Mem { pages: FxMap<u64, Rc<Page>> }

impl Mem {
  pub fn new() -> Self { Mem { pages: Default::default() } }
  pub fn npages(&self) -> usize { self.pages.len() }
  fn page_mut(&mut self, k: u64) -> &mut Page {
    let p = self.pages.entry(k).or_insert_with(|| Rc::new(Page { d: [0; PS], s: None }));
    Rc::make_mut(p)
  }
  pub fn write_concrete(&mut self, mut a: u64, mut b: &[u8]) {
    while !b.is_empty() {
      let o = (a as usize) & (PS - 1);
      let n = b.len().min(PS - o);
      let p = self.page_mut(a >> PB);
      p.d[o..o + n].copy_from_slice(&b[..n]);
      if let Some(s) = &mut p.s { for x in &mut s[o..o + n] { *x = 0; } }
      a += n as u64;
      b = &b[n..];
    }
  }
  /// The byte at `a`: concrete value, or symbolic id.
  pub fn byte(&self, a: u64) -> Result<u8, Eid> {
    match self.pages.get(&(a >> PB)) {
      None => Ok(0),
      Some(p) => {
        let o = (a as usize) & (PS - 1);
        if let Some(s) = &p.s { if s[o] != 0 { return Err(s[o]); } }
        Ok(p.d[o])
      }
    }
  }
  pub fn set_sym(&mut self, a: u64, e: Eid) {
    let p = self.page_mut(a >> PB);
    let o = (a as usize) & (PS - 1);
    p.s.get_or_insert_with(|| Box::new([0; PS]))[o] = e;
  }
  /// Concrete little-endian read of up to 16 bytes, if no byte is symbolic.
  #[inline]
  pub fn read_c(&self, a: u64, n: usize) -> Option<u128> {
    let o = (a as usize) & (PS - 1);
    if o + n <= PS {
      match self.pages.get(&(a >> PB)) {
        None => Some(0),
        Some(p) => {
          if let Some(s) = &p.s { if s[o..o + n].iter().any(|x| *x != 0) { return None; } }
          if n == 8 { return Some(u64::from_le_bytes(p.d[o..o + 8].try_into().unwrap()) as u128); }
          let mut v = 0u128;
          for i in 0..n { v |= (p.d[o + i] as u128) << (8 * i); }
          Some(v)
        }
      }
    } else {
      let mut v = 0u128;
      for i in 0..n { v |= (self.byte(a + i as u64).ok()? as u128) << (8 * i); }
      Some(v)
    }
  }
  #[inline]
  pub fn write_c(&mut self, a: u64, n: usize, v: u128) {
    self.write_concrete(a, &v.to_le_bytes()[..n]);
  }
  pub fn copy(&mut self, dst: u64, src: u64, n: u64) {
    if n == 0 || dst == src { return; }
    let mut tmp = Vec::with_capacity(n as usize);
    let mut syms: Vec<(u64, Eid)> = vec![];
    let mut a = src;
    let mut left = n as usize;
    while left > 0 {
      let o = (a as usize) & (PS - 1);
      let k = left.min(PS - o);
      match self.pages.get(&(a >> PB)) {
        None => tmp.resize(tmp.len() + k, 0),
        Some(p) => {
          if let Some(s) = &p.s {
            for i in 0..k { if s[o + i] != 0 { syms.push(((a - src) + i as u64, s[o + i])); } }
          }
          tmp.extend_from_slice(&p.d[o..o + k]);
        }
      }
      a += k as u64;
      left -= k;
    }
    self.write_concrete(dst, &tmp);
    for (o, e) in syms { self.set_sym(dst + o, e); }
  }
  pub fn fill(&mut self, a: u64, n: u64, b: u8) {
    let buf = [b; 256];
    let mut left = n;
    let mut p = a;
    while left > 0 { let k = left.min(256); self.write_concrete(p, &buf[..k as usize]); p += k; left -= k; }
  }
}
