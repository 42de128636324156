//! Lazy parser for textual LLVM IR (the subset rustc emits).
use crate::expr::FxMap;
use std::rc::Rc;

pub type TyRef = Rc<Ty>;
#[derive(Debug, PartialEq)]
pub enum Ty {
  Void, Int(u32), Ptr, F32, F64, Label, Meta,
  Arr(u64, TyRef), Vec(u64, TyRef),
  Struct { elems: Vec<TyRef>, offs: Vec<u64>, size: u64, align: u64 },
  Func,
}
impl Ty {
  pub fn size(&self) -> u64 {
    match self {
      Ty::Int(n) => { let b = (*n as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
      Ty::Ptr | Ty::F64 => 8,
      Ty::F32 => 4,
      Ty::Arr(n, t) => n * t.size(),
      Ty::Vec(n, t) => if let Ty::Int(1) = **t { (n + 7) / 8 } else { n * t.store() },
      Ty::Struct { size, .. } => *size,
      _ => 0,
    }
  }
  /// Bytes a load or store of this type touches.
  pub fn store(&self) -> u64 {
    match self { Ty::Int(n) => (*n as u64 + 7) / 8, _ => self.size() }
  }
  pub fn align(&self) -> u64 {
    match self {
      Ty::Int(n) => match n { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
      Ty::Ptr | Ty::F64 => 8,
      Ty::F32 => 4,
      Ty::Arr(_, t) => t.align(),
      Ty::Vec(..) => self.size().next_power_of_two().max(1),
      Ty::Struct { align, .. } => *align,
      _ => 1,
    }
  }
  /// Bit width of a scalar.
  pub fn bits(&self) -> u32 {
    match self { Ty::Int(n) => *n, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, t => panic!("bits of {t:?}") }
  }
  pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) }
}
pub fn mk_struct(elems: Vec<TyRef>, packed: bool) -> Ty {
  let (mut off, mut al, mut offs) = (0u64, 1u64, vec![]);
  for e in &elems {
    let a = if packed { 1 } else { e.align() };
    off = (off + a - 1) / a * a;
    offs.push(off);
    off += e.size();
    al = al.max(a);
  }
  let size = (off + al - 1) / al * al;
  Ty::Struct { elems, offs, size, align: al }
}

/// An SSA value. Integers of any width below 2^64 are `C`.
#[derive(Clone, Debug)]
pub enum V { C(u64), S(u32), W(Rc<u128>), A(Rc<[V]>) }

#[derive(Clone, Debug)]
pub enum Opn { R(u32), K(V) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle, Fp(u8) }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastOp { Trunc, ZExt, SExt, Same, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Debug, Clone)]
pub enum Callee { Fn(u32), Ind(Opn), Asm(Rc<str>) }

#[derive(Debug)]
pub enum I {
  Bin(BinOp, u32, TyRef, Opn, Opn),
  Cmp(Pred, u32, TyRef, Opn, Opn),
  Sel(u32, TyRef, bool, Opn, Opn, Opn),
  Cast(CastOp, u32, TyRef, TyRef, Opn),
  Load(u32, TyRef, Opn),
  Store(TyRef, Opn, Opn),
  /// dst, base, constant offset, (index, index bits, scale)
  Gep(u32, Opn, u64, Vec<(Opn, u32, u64)>),
  Alloca(u32, u64, u64, Option<Opn>),
  ExtVal(u32, Opn, Vec<u32>),
  InsVal(u32, Opn, Opn, Vec<u32>),
  ExtEl(u32, TyRef, Opn, Opn),
  InsEl(u32, TyRef, Opn, Opn, Opn),
  Shuf(u32, u64, Opn, Opn, Vec<u32>),
  Call { dst: Option<u32>, ret: TyRef, callee: Callee, args: Vec<(TyRef, Opn)>, normal: Option<u32> },
  Rmw(u32, &'static str, TyRef, Opn, Opn),
  Cmpxchg(u32, TyRef, Opn, Opn, Opn),
  FNeg(u32, TyRef, Opn),
  Copy(u32, Opn),
  Br(u32),
  CBr(Opn, u32, u32),
  Switch(TyRef, Opn, u32, Vec<(u128, u32)>),
  Ret(Option<(TyRef, Opn)>),
  Unreachable,
  LandingPad(u32),
  Resume,
  Nop,
}

pub struct Phi { pub dst: u32, pub arms: Vec<(u32, Opn)> }
pub struct Block { pub phis: Vec<Phi>, pub ins: Vec<I> }
pub struct Func { pub id: u32, pub nregs: u32, pub params: Vec<u32>, pub blocks: Vec<Block> }

pub struct FnInfo { pub name: String, pub body: Option<(usize, usize)>, pub addr: u64 }
pub struct GlobalInfo { pub name: String, pub addr: u64, pub size: u64, pub init: Option<(usize, usize)>, pub ty: TyRef }

#[derive(Debug, Clone, Copy, PartialEq)]
enum Tok<'a> { L(&'a str), G(&'a str), M(&'a str), W(&'a str), N(&'a str), S(&'a str), CS(&'a str), P(char), Lab(&'a str), Attr, Eof }

pub struct Module {
  pub text: String,
  pub fns: Vec<FnInfo>,
  pub fmap: FxMap<String, u32>,
  pub globals: Vec<GlobalInfo>,
  pub gmap: FxMap<String, u64>,
  named: std::cell::RefCell<FxMap<String, TyRef>>,
  named_src: FxMap<String, (usize, usize)>,
  pub aliases: FxMap<String, String>,
}

struct Lx<'a> { s: &'a str, b: &'a [u8], p: usize, line: u32, tok: Tok<'a>, tline: u32, prev_line: u32 }
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
impl<'a> Lx<'a> {
  fn new(s: &'a str) -> Self {
    let mut l = Lx { s, b: s.as_bytes(), p: 0, line: 0, tok: Tok::Eof, tline: 0, prev_line: 0 };
    l.adv();
    l
  }
  fn quoted(&mut self) -> &'a str {
    // at opening quote
    let st = self.p + 1;
    let mut q = st;
    while self.b[q] != b'"' { q += 1; }
    self.p = q + 1;
    &self.s[st..q]
  }
  fn adv(&mut self) {
    self.prev_line = self.tline;
    loop {
      if self.p >= self.b.len() { self.tok = Tok::Eof; self.tline = u32::MAX; return; }
      match self.b[self.p] {
        b'\n' => { self.line += 1; self.p += 1; }
        b' ' | b'\t' | b'\r' => self.p += 1,
        b';' => while self.p < self.b.len() && self.b[self.p] != b'\n' { self.p += 1 },
        _ => break,
      }
    }
    self.tline = self.line;
    let c = self.b[self.p];
    self.tok = match c {
      b'%' | b'@' => {
        self.p += 1;
        let n = if self.b[self.p] == b'"' { self.quoted() } else {
          let st = self.p; while self.p < self.b.len() && idc(self.b[self.p]) { self.p += 1; } &self.s[st..self.p] };
        if c == b'%' { Tok::L(n) } else { Tok::G(n) }
      }
      b'!' => { self.p += 1; let st = self.p; while self.p < self.b.len() && idc(self.b[self.p]) { self.p += 1; } Tok::M(&self.s[st..self.p]) }
      b'#' => { self.p += 1; while self.p < self.b.len() && idc(self.b[self.p]) { self.p += 1; } Tok::Attr }
      b'"' => {
        let q = self.quoted();
        if self.p < self.b.len() && self.b[self.p] == b':' { self.p += 1; Tok::Lab(q) } else { Tok::S(q) }
      }
      b'-' | b'0'..=b'9' => {
        let st = self.p; self.p += 1;
        while self.p < self.b.len() && (idc(self.b[self.p]) || (self.b[self.p] == b'+' && self.b[self.p - 1] == b'e')) { self.p += 1; }
        let t = &self.s[st..self.p];
        if self.p < self.b.len() && self.b[self.p] == b':' { self.p += 1; Tok::Lab(t) } else { Tok::N(t) }
      }
      b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' | b'.' => {
        let st = self.p;
        while self.p < self.b.len() && idc(self.b[self.p]) { self.p += 1; }
        let t = &self.s[st..self.p];
        if t == "c" && self.p < self.b.len() && self.b[self.p] == b'"' { Tok::CS(self.quoted()) }
        else if self.p < self.b.len() && self.b[self.p] == b':' { self.p += 1; Tok::Lab(t) }
        else { Tok::W(t) }
      }
      b'.' if self.s[self.p..].starts_with("...") => { self.p += 3; Tok::W("...") }
      _ => { self.p += 1; Tok::P(c as char) }
    };
  }
  fn is(&self, c: char) -> bool { self.tok == Tok::P(c) }
  fn eat(&mut self, c: char) -> bool { if self.is(c) { self.adv(); true } else { false } }
  fn exp(&mut self, c: char) { if !self.eat(c) { panic!("expected {c:?} got {:?} near {:?}", self.tok, &self.s[self.p.saturating_sub(120)..(self.p + 40).min(self.s.len())]); } }
  fn eatw(&mut self, w: &str) -> bool { if self.tok == Tok::W(w) { self.adv(); true } else { false } }
  fn skip_line(&mut self) { let l = self.prev_line; while self.tline == l { self.adv(); } }
  fn skip_parens(&mut self) {
    // at '('
    let mut d = 0;
    loop {
      match self.tok { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { self.adv(); return; } } Tok::Eof => panic!("eof in parens"), _ => {} }
      self.adv();
    }
  }
}
pub fn unescape(s: &str) -> Vec<u8> {
  let b = s.as_bytes();
  let mut o = Vec::with_capacity(b.len());
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'\\' {
      if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; }
      o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3;
    } else { o.push(b[i]); i += 1; }
  }
  o
}
fn is_type_start(t: &Tok) -> bool {
  match t {
    Tok::W(w) => matches!(*w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "x86_fp80" | "fp128" | "token")
      || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
    Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
    Tok::L(_) => true,
    _ => false,
  }
}
const CONST_KW: &[&str] = &["true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "ptrtoint",
  "inttoptr", "bitcast", "sub", "add", "mul", "xor", "trunc", "addrspacecast", "splat", "blockaddress", "dso_local_equivalent", "no_cfi", "asm"];

pub fn parse_int(s: &str) -> u128 {
  if let Some(r) = s.strip_prefix('-') { (r.parse::<u128>().unwrap()).wrapping_neg() } else { s.parse::<u128>().unwrap() }
}
pub fn kint(v: u128, bits: u32) -> V {
  let v = v & crate::expr::mask(bits.min(128) as u16);
  if v >> 64 == 0 { V::C(v as u64) } else { V::W(Rc::new(v)) }
}

pub const FN_BASE: u64 = 0x10000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

impl Module {
  pub fn load(text: String) -> Module {
    let mut m = Module { text, fns: vec![], fmap: Default::default(), globals: vec![], gmap: Default::default(),
      named: Default::default(), named_src: Default::default(), aliases: Default::default() };
    let text = std::mem::take(&mut m.text);
    let mut globals: Vec<(String, usize, usize)> = vec![];
    let mut p = 0;
    let b = text.as_bytes();
    while p < b.len() {
      let e = text[p..].find('\n').map(|x| p + x).unwrap_or(b.len());
      let line = &text[p..e];
      if line.starts_with("define ") || line.starts_with("declare ") {
        let at = line.find(" @").unwrap() + 2;
        let name = if line.as_bytes()[at] == b'"' { let q = line[at + 1..].find('"').unwrap(); &line[at + 1..at + 1 + q] }
          else { let q = line[at..].find('(').unwrap(); &line[at..at + q] };
        let mut end = e;
        let body = if line.starts_with("define ") {
          end = p + text[p..].find("\n}\n").unwrap() + 2;
          Some((p, end))
        } else { None };
        let id = m.fns.len() as u32;
        m.fns.push(FnInfo { name: name.to_string(), body, addr: FN_BASE + id as u64 * 16 });
        m.fmap.insert(name.to_string(), id);
        p = end + 1;
        continue;
      } else if line.starts_with('@') {
        let (name, rest) = if line.as_bytes()[1] == b'"' { let q = line[2..].find('"').unwrap(); (&line[2..2 + q], 3 + q) }
          else { let q = line.find(' ').unwrap(); (&line[1..q], q) };
        if line[rest..].contains(" alias ") {
          let t = line.rfind('@').unwrap();
          let target = line[t + 1..].trim_matches('"').to_string();
          m.aliases.insert(name.to_string(), target);
        } else {
          globals.push((name.to_string(), p + rest, e));
        }
      } else if line.starts_with('%') {
        let q = line.find(" = type ").unwrap();
        let name = line[1..q].trim_matches('"').to_string();
        m.named_src.insert(name, (p + q + 8, e));
      }
      p = e + 1;
    }
    m.text = text;
    let mut addr = GLOBAL_BASE;
    for (name, s, e) in globals {
      let txt: &str = &m.text[s..e];
      let mut lx = Lx::new(txt);
      lx.exp('=');
      let mut external = false;
      loop {
        match lx.tok {
          Tok::W("global") | Tok::W("constant") => { lx.adv(); break; }
          Tok::W("external") | Tok::W("extern_weak") => { external = true; lx.adv(); }
          Tok::P('(') => lx.skip_parens(),
          Tok::Eof => panic!("bad global {name}"),
          _ => lx.adv(),
        }
      }
      let ty = m.ty(&mut lx);
      let init = if external { None } else {
        // position of the current token
        let tl = match lx.tok { Tok::L(t) | Tok::G(t) | Tok::W(t) | Tok::N(t) => t.as_ptr() as usize - txt.as_ptr() as usize,
          Tok::CS(t) => t.as_ptr() as usize - txt.as_ptr() as usize - 2, Tok::P(_) => lx.p - 1, _ => panic!("init {name} {:?}", lx.tok) };
        let tl = if let Tok::G(_) = lx.tok { if txt.as_bytes()[tl - 1] == b'"' { tl - 2 } else { tl - 1 } } else { tl };
        Some((s + tl, e))
      };
      let size = ty.size();
      addr = (addr + 63) / 64 * 64;
      m.gmap.insert(name.clone(), addr);
      m.globals.push(GlobalInfo { name, addr, size, init, ty });
      addr += size.max(1);
    }
    m
  }
  pub fn resolve(&self, name: &str) -> u64 {
    if let Some(&a) = self.gmap.get(name) { return a; }
    if let Some(&f) = self.fmap.get(name) { return self.fns[f as usize].addr; }
    if let Some(t) = self.aliases.get(name) { return self.resolve(t); }
    panic!("unknown symbol {name}")
  }
  pub fn fn_id(&self, name: &str) -> Option<u32> {
    if let Some(&f) = self.fmap.get(name) { return Some(f); }
    self.aliases.get(name).and_then(|t| self.fn_id(t))
  }
  fn ty(&self, lx: &mut Lx) -> TyRef {
    let t = match lx.tok {
      Tok::W("void") => { lx.adv(); Rc::new(Ty::Void) }
      Tok::W("ptr") => { lx.adv(); if lx.eatw("addrspace") { lx.skip_parens(); } Rc::new(Ty::Ptr) }
      Tok::W("float") => { lx.adv(); Rc::new(Ty::F32) }
      Tok::W("double") => { lx.adv(); Rc::new(Ty::F64) }
      Tok::W("label") => { lx.adv(); Rc::new(Ty::Label) }
      Tok::W("metadata") => { lx.adv(); Rc::new(Ty::Meta) }
      Tok::W(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => { let n = w[1..].parse().unwrap(); lx.adv(); Rc::new(Ty::Int(n)) }
      Tok::L(n) => {
        lx.adv();
        if let Some(t) = self.named.borrow().get(n) { return t.clone(); }
        let &(s, e) = self.named_src.get(n).unwrap_or_else(|| panic!("type %{n}"));
        let mut l2 = Lx::new(&self.text[s..e]);
        let t = if l2.tok == Tok::W("opaque") { Rc::new(mk_struct(vec![], false)) } else { self.ty(&mut l2) };
        self.named.borrow_mut().insert(n.to_string(), t.clone());
        t
      }
      Tok::P('[') => {
        lx.adv();
        let n = if let Tok::N(n) = lx.tok { n.parse().unwrap() } else { panic!("arr") };
        lx.adv(); assert!(lx.eatw("x"));
        let t = self.ty(lx); lx.exp(']');
        Rc::new(Ty::Arr(n, t))
      }
      Tok::P('<') => {
        lx.adv();
        if lx.is('{') { let t = self.ty_struct(lx, true); lx.exp('>'); Rc::new(t) } else {
          let n = if let Tok::N(n) = lx.tok { n.parse().unwrap() } else { panic!("vec") };
          lx.adv(); assert!(lx.eatw("x"));
          let t = self.ty(lx); lx.exp('>');
          Rc::new(Ty::Vec(n, t))
        }
      }
      Tok::P('{') => Rc::new(self.ty_struct(lx, false)),
      t => panic!("type expected, got {t:?} near {:?}", &lx.s[lx.p.saturating_sub(100)..(lx.p + 60).min(lx.s.len())]),
    };
    t
  }
  fn ty_struct(&self, lx: &mut Lx, packed: bool) -> Ty {
    lx.exp('{');
    let mut v = vec![];
    while !lx.is('}') { v.push(self.ty(lx)); lx.eat(','); }
    lx.exp('}');
    mk_struct(v, packed)
  }
  pub fn zero(t: &Ty) -> V {
    match t {
      Ty::Arr(n, t) | Ty::Vec(n, t) => { let z = Self::zero(t); V::A((0..*n).map(|_| z.clone()).collect()) }
      Ty::Struct { elems, .. } => V::A(elems.iter().map(|t| Self::zero(t)).collect()),
      _ => V::C(0),
    }
  }
  /// A constant of a known type.
  fn konst(&self, lx: &mut Lx, t: &Ty) -> V {
    let r = match lx.tok {
      Tok::N(n) => {
        lx.adv();
        match t {
          Ty::F64 => V::C(fp(n)),
          Ty::F32 => V::C((f64::from_bits(fp(n)) as f32).to_bits() as u64),
          Ty::Int(b) => kint(parse_int(n), *b),
          _ => panic!("num {n} of {t:?}"),
        }
      }
      Tok::W("true") => { lx.adv(); V::C(1) }
      Tok::W("false") | Tok::W("null") => { lx.adv(); V::C(0) }
      Tok::W("undef") | Tok::W("poison") | Tok::W("zeroinitializer") | Tok::W("none") => { lx.adv(); Self::zero(t) }
      Tok::W("splat") => {
        lx.adv(); lx.exp('('); let et = self.ty(lx); let v = self.konst(lx, &et); lx.exp(')');
        let n = if let Ty::Vec(n, _) = t { *n } else { panic!() };
        V::A((0..n).map(|_| v.clone()).collect())
      }
      Tok::CS(s) => { let b = unescape(s); lx.adv(); V::A(b.into_iter().map(|x| V::C(x as u64)).collect()) }
      Tok::G(n) => { let a = self.resolve(n); lx.adv(); V::C(a) }
      Tok::P('[') | Tok::P('{') | Tok::P('<') => {
        let mut open = 1;
        let angle = lx.is('<');
        lx.adv();
        if angle && lx.is('{') { lx.adv(); open = 2; }
        let mut v = vec![];
        while !matches!(lx.tok, Tok::P(']') | Tok::P('}') | Tok::P('>')) {
          let et = self.ty(lx);
          v.push(self.konst(lx, &et));
          lx.eat(',');
        }
        for _ in 0..open { lx.adv(); }
        V::A(v.into())
      }
      Tok::W("getelementptr") => {
        lx.adv();
        while let Tok::W(w) = lx.tok {
          if matches!(w, "inbounds" | "nuw" | "nusw") { lx.adv(); } else if w == "inrange" { lx.adv(); lx.skip_parens(); } else { break; }
        }
        lx.exp('(');
        let et = self.ty(lx); lx.exp(',');
        let pt = self.ty(lx);
        let base = match self.konst(lx, &pt) { V::C(a) => a, _ => panic!() };
        let mut idx = vec![];
        while lx.eat(',') {
          let _ = lx.eatw("inrange");
          let it = self.ty(lx);
          let b = it.bits();
          match self.konst(lx, &it) { V::C(i) => idx.push((b, i)), _ => panic!() }
        }
        lx.exp(')');
        let mut off = 0u64;
        let mut cur = et;
        for (k, (b, i)) in idx.into_iter().enumerate() {
          let i = crate::expr::sext128(i as u128, b as u16) as i64 as u64;
          if k == 0 { off = off.wrapping_add(i.wrapping_mul(cur.size())); continue; }
          let nx = match &*cur {
            Ty::Arr(_, t) | Ty::Vec(_, t) => { off = off.wrapping_add(i.wrapping_mul(t.size())); t.clone() }
            Ty::Struct { elems, offs, .. } => { off = off.wrapping_add(offs[i as usize]); elems[i as usize].clone() }
            t => panic!("gep {t:?}"),
          };
          cur = nx;
        }
        V::C(base.wrapping_add(off))
      }
      Tok::W("ptrtoint") | Tok::W("inttoptr") | Tok::W("bitcast") | Tok::W("trunc") => {
        lx.adv(); lx.exp('(');
        let st = self.ty(lx); let v = self.konst(lx, &st);
        assert!(lx.eatw("to")); let dt = self.ty(lx); lx.exp(')');
        match (v, &*dt) { (V::C(x), Ty::Int(b)) => kint(x as u128, *b), (v, _) => v }
      }
      Tok::W(op @ ("sub" | "add" | "mul" | "xor")) => {
        lx.adv();
        while matches!(lx.tok, Tok::W("nuw") | Tok::W("nsw")) { lx.adv(); }
        lx.exp('(');
        let at = self.ty(lx); let a = self.konst(lx, &at); lx.exp(',');
        let bt = self.ty(lx); let b = self.konst(lx, &bt); lx.exp(')');
        match (a, b) {
          (V::C(a), V::C(b)) => kint(match op { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "mul" => a.wrapping_mul(b), _ => a ^ b } as u128, at.bits()),
          _ => panic!(),
        }
      }
      t => panic!("constant expected, got {t:?} near {:?}", &lx.s[lx.p.saturating_sub(100)..(lx.p + 60).min(lx.s.len())]),
    };
    r
  }
  pub fn init_of(&self, g: &GlobalInfo) -> Option<V> {
    let (s, e) = g.init?;
    let mut lx = Lx::new(&self.text[s..e]);
    Some(self.konst(&mut lx, &g.ty))
  }

  pub fn parse_fn(&self, id: u32) -> Func {
    let (s, e) = self.fns[id as usize].body.unwrap();
    let mut lx = Lx::new(&self.text[s..e]);
    let mut fp = FnParser { m: self, regs: Default::default(), blocks: Default::default(), order: vec![] };
    // header
    while !matches!(lx.tok, Tok::G(_)) { lx.adv(); }
    lx.adv();
    lx.exp('(');
    let mut params = vec![];
    let mut unnamed = 0;
    while !lx.is(')') {
      if lx.eatw("...") { continue; }
      let _t = self.ty(&mut lx);
      skip_attrs(&mut lx);
      if let Tok::L(n) = lx.tok { params.push(fp.reg(n)); lx.adv(); } else { let n = unnamed.to_string(); params.push(fp.reg(&n)); }
      unnamed += 1;
      lx.eat(',');
    }
    while !lx.is('{') { lx.adv(); }
    lx.adv();
    let mut blocks: Vec<Option<Block>> = vec![];
    let mut cur: Option<u32> = None;
    let mut phis = vec![];
    let mut ins = vec![];
    let put = |blocks: &mut Vec<Option<Block>>, i: u32, b: Block| {
      while blocks.len() <= i as usize { blocks.push(None); }
      blocks[i as usize] = Some(b);
    };
    if !matches!(lx.tok, Tok::Lab(_)) {
      // unnamed entry block: its label is the number of parameters
      let n = params.len().to_string();
      cur = Some(fp.block(&n));
      fp.order.push(cur.unwrap());
    }
    let entry;
    if let Some(c) = cur { entry = c; } else if let Tok::Lab(n) = lx.tok { entry = fp.block(n); } else { unreachable!() }
    while !lx.is('}') {
      if let Tok::Lab(n) = lx.tok {
        if let Some(c) = cur { put(&mut blocks, c, Block { phis: std::mem::take(&mut phis), ins: std::mem::take(&mut ins) }); }
        cur = Some(fp.block(n));
        lx.adv();
        continue;
      }
      fp.inst(&mut lx, &mut phis, &mut ins);
    }
    put(&mut blocks, cur.unwrap(), Block { phis, ins });
    assert_eq!(entry, 0);
    Func { id, nregs: fp.regs.len() as u32, params, blocks: blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![I::Unreachable] })).collect() }
  }
}
fn fp(s: &str) -> u64 {
  if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { s.parse::<f64>().unwrap().to_bits() }
}
fn skip_attrs(lx: &mut Lx) {
  loop {
    match lx.tok {
      Tok::W(w) if !CONST_KW.contains(&w) => {
        lx.adv();
        if w == "align" { if let Tok::N(_) = lx.tok { lx.adv(); continue; } }
        if lx.is('(') { lx.skip_parens(); }
      }
      Tok::S(_) => { lx.adv(); if lx.eat('=') { lx.adv(); } }
      Tok::Attr => lx.adv(),
      _ => break,
    }
  }
}
struct FnParser<'m> { m: &'m Module, regs: FxMap<String, u32>, blocks: FxMap<String, u32>, order: Vec<u32> }
impl<'m> FnParser<'m> {
  fn reg(&mut self, n: &str) -> u32 {
    if let Some(&r) = self.regs.get(n) { return r; }
    let r = self.regs.len() as u32;
    self.regs.insert(n.to_string(), r);
    r
  }
  fn block(&mut self, n: &str) -> u32 {
    if let Some(&r) = self.blocks.get(n) { return r; }
    let r = self.blocks.len() as u32;
    self.blocks.insert(n.to_string(), r);
    r
  }
  fn val(&mut self, lx: &mut Lx, t: &Ty) -> Opn {
    if let Tok::L(n) = lx.tok { lx.adv(); Opn::R(self.reg(n)) }
    else if let Ty::Meta = t { lx.adv(); if lx.is('(') { lx.skip_parens(); } else if lx.is('{') { while !lx.is('}') { lx.adv(); } lx.adv(); } Opn::K(V::C(0)) }
    else { Opn::K(self.m.konst(lx, t)) }
  }
  fn tv(&mut self, lx: &mut Lx) -> (TyRef, Opn) {
    let t = self.m.ty(lx);
    skip_attrs(lx);
    let v = self.val(lx, &t);
    (t, v)
  }
  fn label(&mut self, lx: &mut Lx) -> u32 {
    assert!(lx.eatw("label"), "{:?}", lx.tok);
    if let Tok::L(n) = lx.tok { lx.adv(); self.block(n) } else { panic!() }
  }
  fn inst(&mut self, lx: &mut Lx, phis: &mut Vec<Phi>, ins: &mut Vec<I>) {
    let mut dst = None;
    if let Tok::L(n) = lx.tok { dst = Some(self.reg(n)); lx.adv(); lx.exp('='); }
    let op = match lx.tok { Tok::W(w) => w, t => panic!("inst {t:?}") };
    lx.adv();
    let d = dst.unwrap_or(u32::MAX);
    let flags = |lx: &mut Lx| while let Tok::W(w) = lx.tok {
      if matches!(w, "nuw" | "nsw" | "exact" | "inbounds" | "nusw" | "nneg" | "disjoint" | "samesign" | "volatile" | "weak" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "atomic") { lx.adv(); } else { break; }
    };
    let bin = |s: &str| Some(match s {
      "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
      "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr,
      "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor,
      "fadd" => BinOp::FAdd, "fsub" => BinOp::FSub, "fmul" => BinOp::FMul, "fdiv" => BinOp::FDiv, "frem" => BinOp::FRem,
      _ => return None,
    });
    let cast = |s: &str| Some(match s {
      "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt,
      "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" => CastOp::Same,
      "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi, "uitofp" => CastOp::UiToFp, "sitofp" => CastOp::SiToFp,
      "fpext" => CastOp::FpExt, "fptrunc" => CastOp::FpTrunc,
      _ => return None,
    });
    if let Some(b) = bin(op) {
      flags(lx);
      let t = self.m.ty(lx);
      let x = self.val(lx, &t); lx.exp(','); let y = self.val(lx, &t);
      ins.push(I::Bin(b, d, t, x, y));
    } else if let Some(c) = cast(op) {
      flags(lx);
      let (t, x) = self.tv(lx);
      assert!(lx.eatw("to"));
      let t2 = self.m.ty(lx);
      ins.push(I::Cast(c, d, t, t2, x));
    } else {
      match op {
        "icmp" | "fcmp" => {
          flags(lx);
          let p = if let Tok::W(w) = lx.tok { w } else { panic!() };
          lx.adv();
          let pr = if op == "icmp" { match p {
            "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
            "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!("{p}") } }
          else { Pred::Fp(match p { "oeq" => 0, "ogt" => 1, "oge" => 2, "olt" => 3, "ole" => 4, "one" => 5, "ord" => 6,
            "ueq" => 8, "ugt" => 9, "uge" => 10, "ult" => 11, "ule" => 12, "une" => 13, "uno" => 14, _ => panic!("{p}") }) };
          let t = self.m.ty(lx);
          let x = self.val(lx, &t); lx.exp(','); let y = self.val(lx, &t);
          ins.push(I::Cmp(pr, d, t, x, y));
        }
        "select" => {
          flags(lx);
          let (ct, c) = self.tv(lx); lx.exp(','); let (t, x) = self.tv(lx); lx.exp(','); let (_, y) = self.tv(lx);
          ins.push(I::Sel(d, t, matches!(*ct, Ty::Vec(..)), c, x, y));
        }
        "freeze" => { let (_, x) = self.tv(lx); ins.push(I::Copy(d, x)); }
        "fneg" => { flags(lx); let (t, x) = self.tv(lx); ins.push(I::FNeg(d, t, x)); }
        "load" => { flags(lx); let t = self.m.ty(lx); lx.exp(','); let (_, p) = self.tv(lx); ins.push(I::Load(d, t, p)); }
        "store" => { flags(lx); let (t, v) = self.tv(lx); lx.exp(','); let (_, p) = self.tv(lx); ins.push(I::Store(t, v, p)); }
        "alloca" => {
          flags(lx);
          let t = self.m.ty(lx);
          let (mut n, mut al) = (None, t.align());
          while lx.tline == lx.prev_line && lx.eat(',') {
            if lx.eatw("align") { if let Tok::N(a) = lx.tok { al = a.parse().unwrap(); lx.adv(); } }
            else if let Tok::M(_) = lx.tok { break; }
            else { n = Some(self.tv(lx).1); }
          }
          ins.push(I::Alloca(d, t.size(), al, n));
        }
        "getelementptr" => {
          flags(lx);
          let t = self.m.ty(lx); lx.exp(',');
          let (_, base) = self.tv(lx);
          let mut cur = t;
          let mut k = 0;
          let mut off = 0u64;
          let mut dynm = vec![];
          while lx.tline == lx.prev_line && lx.eat(',') {
            if let Tok::M(_) = lx.tok { break; }
            let (it, iv) = self.tv(lx);
            let (scale, nx) = if k == 0 { (cur.size(), cur.clone()) } else {
              match &*cur {
                Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size(), e.clone()),
                Ty::Struct { elems, offs, .. } => {
                  let i = match &iv { Opn::K(V::C(i)) => *i as usize, _ => panic!() };
                  off = off.wrapping_add(offs[i]);
                  cur = elems[i].clone(); k += 1; continue;
                }
                t => panic!("gep {t:?}"),
              }
            };
            match &iv {
              Opn::K(V::C(i)) => { let i = crate::expr::sext128(*i as u128, it.bits() as u16) as i64 as u64; off = off.wrapping_add(i.wrapping_mul(scale)); }
              _ => dynm.push((iv, it.bits(), scale)),
            }
            cur = nx; k += 1;
          }
          ins.push(I::Gep(d, base, off, dynm));
        }
        "extractvalue" | "insertvalue" => {
          let (_, a) = self.tv(lx);
          let mut e = None;
          if op == "insertvalue" { lx.exp(','); e = Some(self.tv(lx).1); }
          let mut idx = vec![];
          while lx.tline == lx.prev_line && lx.eat(',') { if let Tok::N(n) = lx.tok { idx.push(n.parse().unwrap()); lx.adv(); } else { break; } }
          ins.push(match e { None => I::ExtVal(d, a, idx), Some(e) => I::InsVal(d, a, e, idx) });
        }
        "extractelement" => { let (t, a) = self.tv(lx); lx.exp(','); let (_, i) = self.tv(lx); ins.push(I::ExtEl(d, t, a, i)); }
        "insertelement" => { let (t, a) = self.tv(lx); lx.exp(','); let (_, e) = self.tv(lx); lx.exp(','); let (_, i) = self.tv(lx); ins.push(I::InsEl(d, t, a, e, i)); }
        "shufflevector" => {
          let (t, a) = self.tv(lx); lx.exp(','); let (_, b) = self.tv(lx); lx.exp(',');
          let (_, m) = self.tv(lx);
          let n = if let Ty::Vec(n, _) = *t { n } else { panic!() };
          let mask = match m { Opn::K(V::A(v)) => v.iter().map(|x| if let V::C(i) = x { *i as u32 } else { 0 }).collect(), _ => panic!() };
          ins.push(I::Shuf(d, n, a, b, mask));
        }
        "phi" => {
          flags(lx);
          let t = self.m.ty(lx);
          let mut arms = vec![];
          loop {
            lx.exp('[');
            let v = self.val(lx, &t); lx.exp(',');
            if let Tok::L(n) = lx.tok { let b = self.block(n); arms.push((b, v)); lx.adv(); } else { panic!() }
            lx.exp(']');
            if !(lx.tline == lx.prev_line && lx.eat(',')) { break; }
            if let Tok::M(_) = lx.tok { break; }
          }
          phis.push(Phi { dst: d, arms });
        }
        "br" => {
          if lx.tok == Tok::W("label") { let b = self.label(lx); ins.push(I::Br(b)); }
          else { let (_, c) = self.tv(lx); lx.exp(','); let a = self.label(lx); lx.exp(','); let b = self.label(lx); ins.push(I::CBr(c, a, b)); }
        }
        "switch" => {
          let (t, v) = self.tv(lx); lx.exp(','); let def = self.label(lx);
          lx.exp('[');
          let mut cs = vec![];
          while !lx.is(']') {
            let ct = self.m.ty(lx);
            let k = match self.m.konst(lx, &ct) { V::C(x) => x as u128, V::W(x) => *x, _ => panic!() };
            lx.exp(','); let b = self.label(lx); cs.push((k, b));
          }
          lx.adv();
          ins.push(I::Switch(t, v, def, cs));
        }
        "ret" => { if lx.eatw("void") { ins.push(I::Ret(None)); } else { let x = self.tv(lx); ins.push(I::Ret(Some(x))); } }
        "unreachable" => ins.push(I::Unreachable),
        "resume" => { self.tv(lx); ins.push(I::Resume); }
        "landingpad" => {
          self.m.ty(lx);
          loop {
            if lx.eatw("cleanup") { continue; }
            if lx.eatw("catch") || lx.eatw("filter") { self.tv(lx); continue; }
            break;
          }
          ins.push(I::LandingPad(d));
          return;
        }
        "fence" => { ins.push(I::Nop); }
        "atomicrmw" => {
          flags(lx);
          let k = match lx.tok { Tok::W(w) => match w { "add" => "add", "sub" => "sub", "and" => "and", "or" => "or", "xor" => "xor", "xchg" => "xchg",
            "umax" => "umax", "umin" => "umin", "max" => "max", "min" => "min", "nand" => "nand", _ => panic!("{w}") }, _ => panic!() };
          lx.adv();
          let (_, p) = self.tv(lx); lx.exp(','); let (t, v) = self.tv(lx);
          ins.push(I::Rmw(d, k, t, p, v));
        }
        "cmpxchg" => {
          flags(lx);
          let (_, p) = self.tv(lx); lx.exp(','); let (t, c) = self.tv(lx); lx.exp(','); let (_, n) = self.tv(lx);
          ins.push(I::Cmpxchg(d, t, p, c, n));
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
          if matches!(op, "tail" | "musttail" | "notail") { assert!(lx.eatw("call")); }
          // flags, calling convention, return attributes
          loop {
            if is_type_start(&lx.tok) { break; }
            match lx.tok {
              Tok::W(w) => {
                lx.adv();
                if w == "align" || w == "cc" { if let Tok::N(_) = lx.tok { lx.adv(); continue; } }
                if lx.is('(') { lx.skip_parens(); }
              }
              Tok::Attr => lx.adv(),
              Tok::S(_) => lx.adv(),
              t => panic!("call {t:?}"),
            }
          }
          let ret = self.m.ty(lx);
          // a full function type for variadic callees
          if lx.is('(') { lx.skip_parens(); }
          let callee = match lx.tok {
            Tok::G(n) => { lx.adv(); Callee::Fn(self.m.fn_id(n).unwrap_or_else(|| panic!("callee {n}"))) }
            Tok::L(n) => { lx.adv(); Callee::Ind(Opn::R(self.reg(n))) }
            Tok::W("asm") => {
              lx.adv();
              while let Tok::W(_) = lx.tok { lx.adv(); }
              let s = if let Tok::S(s) = lx.tok { s } else { panic!() };
              lx.adv(); lx.exp(','); lx.adv();
              Callee::Asm(s.into())
            }
            _ => Callee::Ind(Opn::K(self.m.konst(lx, &Ty::Ptr))),
          };
          lx.exp('(');
          let mut args = vec![];
          while !lx.is(')') { let x = self.tv(lx); args.push(x); lx.eat(','); }
          lx.adv();
          let mut normal = None;
          if op == "invoke" {
            loop {
              if lx.eatw("to") { break; }
              match lx.tok { Tok::P('(') => lx.skip_parens(), Tok::Eof => panic!(), _ => lx.adv() }
            }
            normal = Some(self.label(lx));
            assert!(lx.eatw("unwind"));
            self.label(lx);
          }
          let dst = if matches!(*ret, Ty::Void) { None } else { dst };
          ins.push(I::Call { dst, ret, callee, args, normal });
        }
        _ => panic!("unknown instruction {op}"),
      }
    }
    lx.skip_line();
  }
}
