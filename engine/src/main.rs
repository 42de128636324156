#![allow(dead_code)]
mod exec; mod expr; mod ir; mod mem; mod z3;
use std::sync::atomic::Ordering::SeqCst;

extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }

fn main() {
  let mut a = std::env::args().skip(1);
  let (mut ll, mut entry, mut outdir) = (String::new(), String::new(), String::new());
  let (mut params, mut secs, mut jobs, mut max_inst, mut trace, mut stop_first, mut hang, mut stubs, mut nops, mut tmo) = (vec![], 600u64, 8i64, 400_000_000u64, false, false, false, vec![], vec![], 60_000u32);
  while let Some(x) = a.next() {
    let mut v = || a.next().expect("value");
    match x.as_str() {
      "--ll" => ll = v(), "--entry" => entry = v(), "--out" => outdir = v(),
      "--param" => params.push(v().parse().unwrap()),
      "--secs" => secs = v().parse().unwrap(), "--jobs" => jobs = v().parse().unwrap(), "--max-inst" => max_inst = v().parse().unwrap(),
      "--timeout-ms" => tmo = v().parse().unwrap(),
      "--trace" => trace = true, "--stop-first" => stop_first = true, "--hang" => hang = true,
      "--stub" => { let s = v(); let (p, q) = s.split_once('=').unwrap(); stubs.push((p.to_string(), q.to_string())) }
      "--nop" => nops.push(v()),
      "--selftest" => { std::thread::Builder::new().stack_size(4 << 30).spawn(selftest).unwrap().join().unwrap(); return; }
      o => panic!("option {o}"),
    }
  }
  let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || {
    let t = std::time::Instant::now();
    std::fs::create_dir_all(&outdir).unwrap();
    let m = ir::Module::load(std::fs::read_to_string(&ll).expect("read .ll"));
    let sh: &'static exec::Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const exec::Shared) };
    sh.active.store(1, SeqCst);
    sh.procs.store(1, SeqCst);
    let cfg = exec::Cfg { params, max_inst, deadline: t + std::time::Duration::from_secs(secs), jobs, trace, outdir: outdir.clone(), stop_first, hang, stubs, nops };
    let mut e = exec::Engine::new(&m, cfg, sh, tmo);
    let r = e.run_entry(&entry);
    let g = |x: &std::sync::atomic::AtomicU64| x.load(SeqCst);
    let s = format!("{{\"entry\":{},\"fatal\":{},\"paths\":{},\"pruned\":{},\"instructions\":{},\"asserts\":{},\"asserts_symbolic\":{},\"forks\":{},\"small_domain_decisions\":{},\"cached\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_seconds\":{:.3},\"wall_seconds\":{:.3},\"errors\":{},\"workers\":{},\"solver\":{}}}\n",
      exec::js(&entry), match r { Ok(()) => "null".into(), Err(e) => exec::js(&e) }, g(&sh.paths), g(&sh.pruned), g(&sh.insts), g(&sh.asserts), g(&sh.asserts_sym), g(&sh.forks),
      g(&sh.small), g(&sh.cached), g(&sh.queries), g(&sh.sat), g(&sh.unsat), g(&sh.unknown), g(&sh.nanos) as f64 / 1e9, t.elapsed().as_secs_f64(), g(&sh.errors), g(&sh.procs), exec::js(&z3::version()));
    std::fs::write(format!("{outdir}/summary.json"), &s).unwrap();
    print!("{s}");
  }).unwrap();
  if h.join().is_err() { std::process::exit(3); }
}

/// Random differential test of the expression simplifier, the evaluator and the translation to the solver.
fn selftest() {
  use expr::*;
  let mut s = 0x9e3779b97f4a7c15u64;
  let mut rnd = move || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
  let mut ar = Arena::new();
  let ws = [1u16, 8, 16, 32, 64];
  let mut pool: Vec<(Eid, Box<dyn Fn(&[u128]) -> u128>)> = vec![];
  let mut vals: Vec<u128> = vec![];
  for i in 0..20 { let w = ws[i % 5]; let e = ar.var("v", w); let k = i; pool.push((e, Box::new(move |m| m[k]))); let _ = rnd; }
  for i in 0..20 { vals.push((rnd() as u128) & mask(ws[i % 5])); }
  for _ in 0..10 { for &w in &ws { let v = match rnd() % 4 { 0 => 0, 1 => 1, 2 => mask(w), _ => (rnd() as u128) & mask(w) }; let e = ar.konst(v, w); pool.push((e, Box::new(move |_| v))); } }
  let mut solver = z3::Solver::new(10_000);
  let mut conc: Vec<u128> = pool.iter().map(|p| (p.1)(&vals)).collect();
  let mut es: Vec<Eid> = pool.iter().map(|p| p.0).collect();
  let mut bad = 0;
  for it in 0..60000 {
    let i = (rnd() % es.len() as u64) as usize;
    let w = ar.w(es[i]);
    let js: Vec<usize> = (0..es.len()).filter(|&j| ar.w(es[j]) == w).collect();
    let j = js[(rnd() % js.len() as u64) as usize];
    let k = rnd() % 22;
    let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::Shl, Op::LShr, Op::AShr, Op::And, Op::Or, Op::Xor, Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle];
    let (e, v) = if k < 18 {
      let op = ops[k as usize];
      (ar.bin(op, es[i], es[j]), eval_bin(op, w, conc[i], conc[j]))
    } else if k == 18 {
      let cs: Vec<usize> = (0..es.len()).filter(|&x| ar.w(es[x]) == 1).collect();
      let c = cs[(rnd() % cs.len() as u64) as usize];
      (ar.ite(es[c], es[i], es[j]), if conc[c] != 0 { conc[i] } else { conc[j] })
    } else if k == 19 && w > 1 {
      let ew = ws.iter().copied().filter(|x| *x < w).nth((rnd() % ws.iter().filter(|x| **x < w).count() as u64) as usize).unwrap();
      let lo = (rnd() % (w - ew + 1) as u64) as u16;
      (ar.extract(es[i], lo + ew - 1, lo), (conc[i] >> lo) & mask(ew))
    } else if k == 20 && w < 64 {
      let nw = ws.iter().copied().find(|x| *x > w).unwrap();
      if rnd() % 2 == 0 { (ar.zext(es[i], nw), conc[i]) } else { (ar.sext(es[i], nw), (sext128(conc[i], w) as u128) & mask(nw)) }
    } else if k == 21 && (w == 8 || w == 16 || w == 32) {
      (ar.concat(es[i], es[j]), (conc[i] << w) | conc[j])
    } else { continue };
    let got = ar.eval(e, &vals, &mut Default::default());
    if got != v { bad += 1; if bad < 10 { println!("MISMATCH op#{k} w{w} got {got} want {v}"); } }
    if it % 60 == 0 {
      // the solver must agree: vars fixed, e != v unsatisfiable
      let mut pc = vec![];
      for x in 0..20 { let c = ar.konst(vals[x], ws[x % 5]); pc.push(ar.bin(Op::Eq, es[x], c)); }
      let kv = ar.konst(v, ar.w(e));
      let ne = { let q = ar.bin(Op::Eq, e, kv); ar.not(q) };
      match solver.check(&ar, &pc, Some(ne)) { z3::Res::Unsat => {}, _ => { bad += 1; println!("SOLVER MISMATCH op#{k} w{w}"); } }
    }
    if es.len() < 100 || es.len() < 3000 && rnd() % 3 != 0 { es.push(e); conc.push(v); } else { let r = 70 + (rnd() % (es.len() as u64 - 70)) as usize; if ar.w(es[r]) == ar.w(e) { es[r] = e; conc[r] = v; } }
  }
  println!("selftest: {bad} mismatches, {} nodes, {} solver queries", ar.nodes.len(), solver.queries);
  if bad > 0 { std::process::exit(1); }
}
