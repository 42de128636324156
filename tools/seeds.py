"""Planted bugs: what they change, and a test that shows it."""
MD = "crates/mdbook-aquascope/src/"
AN = "crates/aquascope/src/analysis/"
SEEDS = []


def seed(id, property, edits, file, demo, needs, breaks):
    pkg = "mdbook-aquascope" if file.startswith(MD) else "aquascope"
    SEEDS.append(dict(id=id, property=property, edits=edits, file=file, pkg=pkg, demo="\n#[cfg(test)]\nmod vdemo {\n  use super::*;\n" + demo.strip("\n") + "\n}\n", needs=needs, breaks=breaks))


seed("c20-escape", "C20", [(MD + "annotations.rs", '      add_fragment!("#");\n', '      fragments.push("#");\n')], MD + "annotations.rs", '''
  #[test]
  fn escaped() {
    let (s, a) = parse_annotations("\\\\#[test]\\nfn f() `[]`{}").unwrap();
    assert_eq!(s, "#[test]\\nfn f() {}");
    assert_eq!(a.interp.state_locations, vec![MdCharPos(15)]);
  }''', "an escaped \\# on a line before an interpreter marker", "the escaped # is not counted, so every later state location is one character too early")

seed("c20-colon", "C20", [(MD + "annotations.rs", "s.split_once(':')", "s.rsplit_once(':')")], MD + "annotations.rs", '''
  #[test]
  fn colons() {
    let (_, a) = parse_annotations("x`(paths:a:b)`").unwrap();
    assert_eq!(a.stepper.focused_paths[&MdLinePos(1)], vec![PathMatcher::Literal("a:b".into())]);
  }''', "a path matcher whose own text has a colon", "the setting's name swallows part of its value, so the matcher is lost")

seed("c21-header", "C21", [(MD + "block.rs", r'none_of(",=\n+")', r'none_of(",=\n+ ")')], MD + "block.rs", '''
  #[test]
  fn blank() {
    let b = AquascopeBlock::parse_all("```aquascope,stepper,title=a b\\nx\\n```");
    assert_eq!(b[0].1.config, vec![("title".to_string(), "a b".to_string())]);
    assert_eq!(b[0].1.code, "x");
  }''', "a setting with a blank in its value", "the value is cut at the blank and the rest of the header becomes code")

seed("c22-prefix", "C22", [(MD + "permissions.rs", "!VALID_PERMISSIONS.contains(&perm)", "!VALID_PERMISSIONS.iter().any(|p| perm.starts_with(p))")], MD + "permissions.rs", '''
  #[test]
  fn unknown() {
    assert!(parse_perms("@Perm{owned}").next().unwrap().is_err());
    assert!(parse_perms("@Perm{own}").next().unwrap().is_ok());
  }''', "an unknown permission that begins with a known one", "an unknown permission is accepted")

seed("c22-case", "C22", [(MD + "permissions.rs", r'@Perm(\[[^\]]*\])?\{([^}]*)\}', r'@Perm(\[[^\]]*\])?\{([a-z-]*)\}')], MD + "permissions.rs", '''
  #[test]
  fn unknown() { assert!(parse_perms("@Perm{Read}").next().expect("a reference").is_err()); }''', "a permission name with a character other than small letters", "the reference is left in the text instead of being reported")

seed("c23-dirty", "C23", [(MD + "cache.rs", "    self.cache.insert(hash(&key), value);\n    self.dirty = true;", "    if self.cache.insert(hash(&key), value).is_none() {\n      self.dirty = true;\n    }")], MD + "cache.rs", '''
  #[test]
  fn overwritten() {
    let d = tempfile::tempdir().unwrap();
    std::env::set_current_dir(d.path()).unwrap();
    let mut c = Cache::<u8, u8>::load().unwrap();
    c.set(1, 1);
    c.save().unwrap();
    let mut c = Cache::<u8, u8>::load().unwrap();
    c.set(1, 2);
    c.save().unwrap();
    assert_eq!(Cache::<u8, u8>::load().unwrap().get(&1), Some(&2));
  }''', "a response stored again for a key that came from the cache file", "the new response is not saved")

seed("c23-hash", "C23", [(MD + "block.rs", "#[derive(PartialEq, Hash, Debug, Clone)]", "#[derive(PartialEq, Debug, Clone)]"),
    (MD + "block.rs", "impl AquascopeBlock {\n", """impl Hash for AquascopeBlock {
  fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
    for op in &self.operations {
      op.hash(state);
    }
    for (k, v) in &self.config {
      k.hash(state);
      v.hash(state);
    }
    self.code.hash(state);
  }
}

impl AquascopeBlock {
""")], MD + "block.rs", '''
  #[test]
  fn keys() {
    use std::hash::{DefaultHasher, Hasher};
    let key = |s: &str| { let mut h = DefaultHasher::new(); AquascopeBlock::parse_all(s)[0].1.hash(&mut h); h.finish() };
    assert_ne!(key("```aquascope,stepper+horizontal+true\\nx\\n```"), key("```aquascope,stepper,horizontal\\nx\\n```"));
    assert_eq!(key("```aquascope,stepper\\nx\\n```"), key("```aquascope,stepper\\nx`[]`\\n```"));
  }''', "two blocks whose operations and settings come to the same run of strings", "blocks with different operations share a cache key")

seed("c01-drop", "C01", [(AN + "permissions/mod.rs", "let drop = self.type_droppable && read && self.loan_drop_refined.is_none();", "let drop = self.type_droppable\n      && !mem_uninit\n      && self.loan_drop_refined.is_none();")], AN + "permissions/mod.rs", '''
  #[test]
  fn own_needs_read() {
    let d = PermissionsData { type_droppable: true, type_writeable: true, type_copyable: false, is_live: true, path_uninitialized: false, path_moved: None, loan_read_refined: Some(LoanKey(0)), loan_write_refined: None, loan_drop_refined: None };
    assert!(!d.permissions().drop);
  }''', "a path with a read-refining loan and no drop-refining one", "a path that cannot be read is still said to be owned")

seed("c04-value", "C04", [(AN + "stepper/mod.rs", "        ValueStep::None { value: Some(v1) }", "        ValueStep::None { value: Some(*v0) }")], AN + "stepper/mod.rs", '''
  #[test]
  fn latest() {
    match Some(LoanKey(1)).diff(Some(LoanKey(2))) { ValueStep::None { value } => assert_eq!(value, Some(LoanKey(2))), _ => panic!() }
  }''', "a step over which the refining loan is replaced by another", "the step names the loan from before the step")

seed("c04-symmetric", "C04", [(AN + "stepper/mod.rs", "      && p1.drop.is_symmetric_diff(&p2.drop)", "      && (p1.drop.is_empty() || p1.drop.is_symmetric_diff(&p2.drop))")], AN + "stepper/mod.rs", '''
  #[test]
  fn one_sided() {
    let data = |drop| PermissionsData { type_droppable: drop, type_writeable: false, type_copyable: false, is_live: true, path_uninitialized: false, path_moved: None, loan_read_refined: None, loan_write_refined: None, loan_drop_refined: None };
    let (none, lost) = (data(true).diff(data(true)), data(true).diff(data(false)));
    assert!(!none.is_symmetric_diff(&lost));
    assert!(!lost.is_symmetric_diff(&none));
  }''', "two branches of which only the second changes ownership", "steps that do not undo each other are taken to be symmetric")

seed("c05-drop", "C05", [(AN + "boundaries/mod.rs", "        ($this.expected.$perm && !$this.actual.$perm)", "        ($this.expected.$perm && !$this.actual.$perm && $this.data.is_live)")], AN + "boundaries/mod.rs", '''
  #[test]
  fn dead() {
    let p = |b| Permissions { read: b, write: b, drop: b };
    let data = PermissionsData { type_droppable: true, type_writeable: true, type_copyable: false, is_live: false, path_uninitialized: false, path_moved: None, loan_read_refined: None, loan_write_refined: None, loan_drop_refined: None };
    let b = PermissionsBoundary { location: CharPos { line: 0, column: 0 }, byte_location: BytePos(0), expected: p(true), actual: p(false), data, expecting_flow: None };
    assert!(b.is_violation());
  }''', "a boundary on a path that is not live", "a missing permission is not a violation there")

# ---- the analyses, shown on real programs
PRE = '''
  use crate::{analysis::AquascopeAnalysis as A_, test_utils as tu_};
  #[allow(dead_code)]
  fn on(code: &'static str, name: &'static str, f: impl Fn(&mut A_<'_>) + Send + Sync) {
    let ran = std::sync::atomic::AtomicBool::new(false);
    tu_::compile_normal(code, |tcx| {
      tu_::for_each_body(tcx, |id, _| {
        let mut a = A_::new(tcx, id);
        let owner = tcx.hir().body_owner(id);
        if tcx.hir().opt_name(owner).is_some_and(|n| n.as_str() == name) {
          f(&mut a);
          ran.store(true, std::sync::atomic::Ordering::SeqCst);
        }
      })
    });
    assert!(ran.load(std::sync::atomic::Ordering::SeqCst), "the program was not analysed");
  }
'''
P, IR, ST = AN + "permissions/", AN + "ir_mapper/", AN + "stepper/"

seed("c06-parents", "C06", [(P + "output.rs", ".chain(move_path.parents(&ictxt.move_data.move_paths).map(\n            move |(_, move_parent)| {", ".chain(move_path.parents(&ictxt.move_data.move_paths).take(1).map(\n            move |(_, move_parent)| {")], P + "output.rs", PRE + '''
  #[test]
  fn grandparent() {
    on("struct A { b: B } struct B { c: String, d: String } fn f(a: A) { let x = a.b.c; let y = x; }", "f", |a| {
      let c = &a.permissions;
      assert!(c.permissions_output.move_refined.values().any(|m| m.keys().any(|p| { let pl = c.path_to_place(*p); pl.local.as_usize() == 1 && pl.projection.is_empty() })));
    });
  }''', "a move of a field of a field", "the variable that holds both is not moved partially")

seed("c06-unique", "C06", [(P + "context.rs", "matches!(brw.kind(), BorrowKind::Mut { .. })", """{
      use rustc_middle::mir::MutBorrowKind as K;
      matches!(brw.kind(), BorrowKind::Mut { kind: K::Default | K::TwoPhaseBorrow })
    }""")], P + "output.rs", PRE + '''
  #[test]
  fn unique() {
    on("fn f(x: &mut i32) { let mut c = || { *x = 1; }; c(); c(); }", "f", |a| {
      let c = &a.permissions;
      assert!(c.permissions_output.loan_read_refined.values().any(|m| m.keys().any(|p| c.path_to_place(*p).local.as_usize() == 1)));
    });
  }''', "a closure that captures a mutable reference by unique borrow", "the captured path can still be read while the closure is live")

seed("c07-implicit", "C07", [(P + "context.rs", '''    self.body_with_facts.body.local_decls[place.local].mutability
      != Mutability::Mut
''', '''    let decl = &self.body_with_facts.body.local_decls[place.local];
    decl.mutability != Mutability::Mut
      && (!decl.is_user_variable() || decl.can_be_made_mutable())
''')], P + "output.rs", PRE + '''
  #[test]
  fn reference_binding() {
    on("fn f(o: Option<String>) -> usize { let Some(ref s) = o else { return 0 }; s.len() }", "f", |a| {
      let c = &a.permissions;
      let body = &c.body_with_facts.body;
      let mut n = 0;
      for (p, pl) in c.place_data.iter_enumerated() {
        if pl.projection.is_empty() && body.local_decls[pl.local].is_user_variable() {
          assert!(!c.is_path_write_enabled(p), "{pl:?}");
          n += 1;
        }
      }
      assert!(n >= 2);
    });
  }''', "a local that is a `ref` binding or an implicit self", "it is said to be writeable though it is not declared mut")

seed("c08-enum", "C08", [(P + "context.rs", "ty::Adt(adt, _) if adt.has_dtor(tcx) && !adt.is_box())", "ty::Adt(adt, _) if adt.has_dtor(tcx) && adt.is_struct() && !adt.is_box())")], P + "output.rs", PRE + '''
  #[test]
  fn enum_with_destructor() {
    on("enum E { V(String), W } impl Drop for E { fn drop(&mut self) {} } fn f(e: E) -> usize { match e { E::V(ref s) => s.len(), E::W => 0 } }", "f", |a| {
      let c = &a.permissions;
      let mut n = 0;
      for (p, pl) in c.place_data.iter_enumerated() {
        if pl.local.as_usize() == 1 && pl.projection.len() == 2 {
          assert!(!c.is_path_drop_enabled(p), "{pl:?}");
          n += 1;
        }
      }
      assert!(n > 0);
    });
  }''', "a field of a variant of an enum with a destructor", "it is said that it could be moved out of the enum")

seed("c09-both", "C09", [(P + "context.rs", '''          self.0 = p;
        }

        if curr_latest''', '''          self.0 = p;
        } else if curr_latest''')], P + "context.rs", PRE + '''
  #[test]
  fn around() {
    on("fn f(mut v: Vec<i32>) -> i32 { let r = &mut v; if r.len() > 1 { r.push(1); } v[0] }", "f", |a| {
      let c = &mut a.permissions;
      let body = &c.body_with_facts.body;
      let locs = body.basic_blocks.indices().flat_map(|b| (0 ..= body.basic_blocks[b].statements.len()).map(move |i| Location { block: b, statement_index: i })).collect::<Vec<_>>();
      let mut n = 0;
      for &x in &locs {
        for &y in &locs {
          let (sx, sy) = (c.location_to_span(x), c.location_to_span(y));
          if sx.lo() < sy.lo() && sy.hi() < sx.hi() {
            let (px, py) = (c.location_to_point(x), c.location_to_point(y));
            let loan = Loan::from(0usize);
            c.polonius_output.loan_live_at = [(px, vec![loan]), (py, vec![loan])].into_iter().collect();
            c.loan_regions = None;
            c.construct_loan_regions();
            let (lo, hi) = c.loan_regions.as_ref().unwrap()[&loan];
            assert_eq!(c.location_to_span(c.point_to_location(lo)).lo(), sx.lo());
            assert_eq!(c.location_to_span(c.point_to_location(hi)).hi(), sx.hi());
            n += 1;
          }
        }
      }
      assert!(n > 0);
    });
  }''', "a loan whose nodes nest, visited from the inner to the outer", "the region ends where the inner node ends")

seed("c09-cleanup", "C09", [(P + "context.rs", "    !bbs[bb].is_cleanup\n      && !bbs[bb].is_empty_unreachable()\n", "    !bbs[bb].is_empty_unreachable()\n")], P + "context.rs", PRE + '''
  #[test]
  fn cleanup() {
    on("fn f(s: String) -> i32 { let t = s; g(); 1 } fn g() {}", "f", |a| {
      let c = &a.permissions;
      let mut n = 0;
      for (b, d) in c.body_with_facts.body.basic_blocks.iter_enumerated() {
        if d.is_cleanup {
          assert!(!c.is_location_operational(b.start_location()));
          n += 1;
        }
      }
      assert!(n > 0);
    });
  }''', "a block that only unwinding leads to", "its drops count as operations of the program")

seed("c10-sort", "C10", [(AN + "mod.rs", "elements.sort_by_key(|a| a.lo());", "elements.sort_by_key(|a| a.hi());")], AN + "mod.rs", '''
  #[test]
  fn apart() {
    let s = |a, b| Span::with_root_ctxt(rustc_span::BytePos(a), rustc_span::BytePos(b));
    let r = smooth_elements(vec![s(0, 3), s(5, 6), s(2, 9)]);
    assert_eq!(r, vec![s(0, 9)]);
  }''', "a span that reaches from one earlier span over another", "the shown ranges overlap")

seed("c10-end", "C10", [(AN + "mod.rs", "min_span.lo() <= span.lo() && span.hi() <= max_span.hi()", "min_span.lo() <= span.lo() && span.lo() <= max_span.hi()")], AN + "mod.rs", PRE + '''
  #[test]
  fn within() {
    on("fn f(c: bool, mut v: Vec<i32>) { let r = &mut v; if c { r.push(1); } else { r.push(2); } }", "f", |a| {
      let c = &a.permissions;
      let body = &c.body_with_facts.body;
      let hir = c.tcx.hir();
      let span_at = |l| hir.span(body.location_to_hir_id(l));
      let locs = body.basic_blocks.indices().flat_map(|b| (0 ..= body.basic_blocks[b].statements.len()).map(move |i| rustc_middle::mir::Location { block: b, statement_index: i })).collect::<Vec<_>>();
      let mut n = 0;
      for &x in &locs {
        for &y in &locs {
          let (sx, sy) = (span_at(x), span_at(y));
          if sx.is_empty() || sy.is_empty() || !(sy.lo() <= sx.lo() && sx.lo() <= sy.hi() && sy.hi() < sx.hi()) {
            continue;
          }
          let live = [(c.location_to_point(x), vec![7u8])].into_iter().collect();
          for s in a.key_to_spans(7u8, &live, sy, sy) {
            assert!(s.hi() <= sy.hi(), "{s:?} after {sy:?}");
          }
          n += 1;
        }
      }
      assert!(n > 0);
    });
  }''', "a loan live at a node that begins before the region's end and goes on after it", "the whole node is shown")

seed("c11-exits", "C11", [(IR + "post_dominators.rs", "    for exit in exits {\n", "    if let Some(exit) = exits.into_iter().last() {\n")], IR + "post_dominators.rs", '''
  use rustc_data_structures::graph::vec_graph::VecGraph;
  struct G(VecGraph<usize>, VecGraph<usize>);
  impl DirectedGraph for G { type Node = usize; fn num_nodes(&self) -> usize { self.0.num_nodes() } }
  impl StartNode for G { fn start_node(&self) -> usize { 0 } }
  impl Successors for G { fn successors(&self, n: usize) -> impl Iterator<Item = usize> { self.0.successors(n).to_vec().into_iter() } }
  impl Predecessors for G { fn predecessors(&self, n: usize) -> impl Iterator<Item = usize> { self.1.successors(n).to_vec().into_iter() } }
  #[test]
  fn two_exits() {
    // 0 -> 1 -> 2 (exit), 1 -> 3 (exit)
    let e = vec![(0, 1), (1, 2), (1, 3)];
    let g = G(VecGraph::new(4, e.clone()), VecGraph::new(4, e.iter().map(|&(a, b)| (b, a)).collect()));
    let p = AllPostDominators::build(&g, [2, 3]);
    assert!(p.is_postdominated_by(0, 1));
    assert!(!p.is_postdominated_by(0, 3));
    assert!(!p.is_postdominated_by(0, 2));
  }''', "a graph with two exits", "a block on the way to only one of them post-dominates")

seed("c12-false", "C12", [(IR + "mod.rs", '''    data.statements.is_empty()
      && matches!(term.kind, TK::FalseUnwind { .. } | TK::FalseEdge { .. })''', '''    matches!(term.kind, TK::FalseUnwind { .. } | TK::FalseEdge { .. })''')], IR + "mod.rs", PRE + '''
  #[test]
  fn all_locations() {
    on("fn f(o: (Option<i32>, i32)) -> i32 { let mut n = 0; loop { n += 1; match o { (Some(x), 1) if x > n => return 1, (Some(y), z) if y > z => n += 2, _ => break } } n }", "f", |a| {
      let body = &a.permissions.body_with_facts.body;
      let mut n = 0;
      for (b, d) in body.basic_blocks.iter_enumerated() {
        if d.is_cleanup || d.statements.is_empty() || !matches!(d.terminator().kind, mir::TerminatorKind::FalseEdge { .. } | mir::TerminatorKind::FalseUnwind { .. }) {
          continue;
        }
        n += 1;
        let l = b.start_location();
        let m = a.ir_mapper.get_mir_locations(body.location_to_hir_id(l), GatherDepth::Outer).unwrap();
        assert!(m.values().any(|k| k == l));
      }
      assert!(n > 0);
    });
  }''', "a node with statements in a block that ends in a false edge", "these locations are left out")

seed("c15-close", "C15", [(ST + "segmented_mir.rs", '''      *last_open == idx,
''', '''      *last_open == idx || self.open_scopes.contains(&idx),
''')], ST + "segmented_mir.rs", PRE + '''
  #[test]
  fn innermost() {
    on("fn f() {}", "f", |a| {
      let mut b = SegmentedMirBuilder::make(&a.ir_mapper);
      let s = b.open_scope().unwrap();
      let _ = b.open_scope().unwrap();
      assert!(b.close_scope(s).is_err());
    });
  }''', "closing a scope while one inside it is open", "the inner scope is closed instead of an error reported")

seed("c16-field", "C16", [(P + "flow.rs", "!bd.borrowed_place().is_indirect()", "!bd.borrowed_place().is_indirect_first_projection()")], P + "flow.rs", PRE + '''
  #[test]
  fn through_field() {
    on("struct S<'a> { x: &'a mut i32, n: i32 } fn f<'a: 'b, 'b>(s: S<'a>) -> &'b mut i32 { &mut *s.x }", "f", |a| {
      compute_flows(&mut a.permissions);
      let (c, flows) = (&a.permissions, a.permissions.region_flows());
      let mut n = 0;
      for &(f, t, _) in &c.polonius_input_facts.subset_base {
        assert!(!matches!(flows.flow_kind(f, t), FlowEdgeKind::LocalOutlivesUniversal));
        n += 1;
      }
      assert!(n > 0);
    });
  }''', "a reborrow through a reference kept in a field", "it counts as the borrow of a local, which must not be returned")

seed("c16-dangling", "C16", [(P + "flow.rs", "      .any(|local| self.dangling_local_sources.contains(local))", "      .last()\n      .is_some_and(|local| self.dangling_local_sources.contains(local))")], P + "flow.rs", '''
  #[test]
  fn any_of_two() {
    let o = |i: usize| Origin::from(i);
    for dangling in [0, 1] {
      // regions 0 and 1 are borrows of locals that flow into 2, and that flows into 3
      let g = VecGraph::<Origin, false>::new(4, vec![(o(0), o(2)), (o(1), o(2)), (o(2), o(3))]);
      let sccs = Sccs::<Origin, SccIdx>::new(&g);
      let n = sccs.num_sccs();
      let mut d = ChunkedBitSet::new_empty(n);
      d.insert(sccs.scc(o(dangling)));
      let contains_local = flow_from_sources([sccs.scc(o(0)), sccs.scc(o(1))].into_iter(), &sccs);
      let none = || TransitiveRelationBuilder::default().freeze();
      let f = RegionFlows { constraint_graph: sccs, specified_flows: none(), dangling_local_sources: d, abstract_sources: ChunkedBitSet::new_empty(n), contains_abstract: none(), contains_local };
      assert!(matches!(f.flow_kind(o(2), o(3)), FlowEdgeKind::LocalInvalidatedAtExit));
    }
  }''', "a region into which several borrows of locals flow, of which one dangles", "the flow is said to be valid")

seed("c17-first", "C17", [("crates/aquascope/src/errors/mod.rs", "      .min_by_key(|s| s.lo())", "      .next()")], "crates/aquascope/src/errors/mod.rs", '''
  #[test]
  fn earliest() {
    use rustc_errors::Level;
    use rustc_span::BytePos;
    let id = LocalDefId { local_def_index: rustc_hir::def_id::DefIndex::from_u32(0) };
    track_body_diagnostics(id);
    for (lo, hi) in [(20, 22), (5, 6), (9, 30)] {
      let mut d = DiagInner::new(Level::Error, "x");
      d.sort_span = Span::with_root_ctxt(BytePos(lo), BytePos(hi));
      track_diagnostic(d, &mut |_| ());
    }
    assert_eq!(get_span_of_first_error(id).unwrap().lo(), BytePos(5));
  }''', "errors not reported in the order of the source", "the error reported first is taken for the first one")

seed("c17-code", "C17", [("crates/aquascope/src/errors/mod.rs", "is_error: d.is_error(),", "is_error: d.is_error() && d.code.is_some(),")], "crates/aquascope/src/errors/mod.rs", '''
  #[test]
  fn codeless() {
    use rustc_errors::Level;
    use rustc_span::BytePos;
    let id = LocalDefId { local_def_index: rustc_hir::def_id::DefIndex::from_u32(0) };
    track_body_diagnostics(id);
    let mut d = DiagInner::new(Level::Error, "lifetime may not live long enough");
    d.sort_span = Span::with_root_ctxt(BytePos(5), BytePos(9));
    track_diagnostic(d, &mut |_| ());
    assert!(get_span_of_first_error(id).is_some());
  }''', "an error without an error code, such as a lifetime that may not live long enough", "it is not seen")

seed("c18-late", "C18", [(ST + "table_builder.rs", ".is_some_and(|err_span| err_span.hi() < span.lo()))", ".is_some_and(|err_span| err_span.hi() <= span.lo()))")], ST + "table_builder.rs", PRE + '''
  #[test]
  fn same_line() {
    on("fn f() {\\n  let s = String::new();\\n  let t = s;\\n  let u = t;\\n}\\n", "f", |a| {
      let c = &a.permissions;
      let body = &c.body_with_facts.body;
      errors::track_body_diagnostics(c.def_id.expect_local());
      let lines = |a: &A_<'_>| super::super::compute_permission_steps(a).unwrap().iter().map(|l| l.location.start.line).collect::<HashSet<_>>();
      let all = lines(a);
      // an error that ends where the line of `let t` ends
      let sm = c.tcx.sess.source_map();
      let l = body.basic_blocks.iter().flat_map(|d| d.statements.iter()).map(|s| s.source_info.span).find(|s| sm.lookup_char_pos(s.lo()).line == 3).unwrap();
      c.tcx.dcx().span_err(sm.span_extend_to_line(l), "x");
      let some = lines(a);
      assert!(some.len() < all.len());
      assert!(some.contains(&2), "{all:?} {some:?}");
    });
  }''', "an error that reaches to the end of its line", "the steps on the error's line are hidden too")

seed("c19-all", "C19", [(AN + "mod.rs", '''            points
              .into_iter()
              .filter(|point| ctxt.is_point_operational(*point)),
''', '''            points,
''')], AN + "mod.rs", PRE + '''
  #[test]
  fn operations() {
    on("fn f(s: String) {\\n  let t = s;\\n  {\\n    let u: i32;\\n  }\\n  let v = 1;\\n}", "f", |a| {
      let (_, r) = a.construct_move_info();
      eprintln!("{r:?}");
      assert!(r.0.values().all(|r| r.refined_ranges.iter().all(|r| (r.start.line, r.start.column) != (5, 2))));
    });
  }''', "a statement in the region of a move that has storage markers", "all of it is shown, not only what it evaluates")



seed("c13-cleanup", "C13", [(IR + "body_graph.rs", "!bb.is_cleanup && !bb.is_unreachable()", "!(bb.is_cleanup && bb.statements.is_empty()) && !bb.is_unreachable()")], IR + "body_graph.rs", PRE + '''
  #[test]
  fn replaced() {
    on("fn f(mut s: String) -> String { s = g(); s } fn g() -> String { String::new() }", "f", |a| {
      let g = CleanedBody(&a.permissions.body_with_facts.body);
      for b in g.blocks() {
        assert!(!g.body().basic_blocks[b].is_cleanup);
        assert!(g.successors(b).all(|s| !g.body().basic_blocks[s].is_cleanup));
      }
    });
  }''', "an assignment that drops the old value, which may unwind", "the block that assigns while unwinding counts as a real block")
