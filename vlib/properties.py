"""The properties, in the format of PROPERTIES.schema.json."""


def P(id, title, statement, over, text, why, files, mech, state=(), hook=None, observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook))
    assert len(title) <= 80, title
    return d


MD = "crates/mdbook-aquascope/src/"
HOOK = "a cfg(aquascope_verif)-guarded child module including the harness"
AQ = "crates/aquascope/src/"
AN = AQ + "analysis/"
IN = AQ + "interpreter/"
PROPS = [
    P("C01", "Read, write and own permissions follow the permission rules",
      "For all facts about a path at a point: it has read exactly when it is live, initialized, not moved and no live loan refines read; write exactly when it also has a writeable type and no loan refines write; own exactly when it also has a droppable type and no loan refines drop. Ignoring liveness changes nothing else, and joining permissions keeps exactly what both sides have, telling whether that changed anything.",
      ["inputs"], "every combination of facts about a path", "Snapshots show the rules on particular programs; no test varies the facts independently.", [AN + "permissions/mod.rs"], [("PermissionsData::permissions, permissions_ignore_liveness", AN + "permissions/mod.rs"), ("JoinSemiLattice for Permissions", AN + "permissions/mod.rs")], hook=HOOK),
    P("C04", "A permission step says exactly how the permissions changed",
      "For every pair of program points, the step between them compares before with after, field by field and place by place: gained (up, with the new value), lost (down) or unchanged (with the value). A step is empty exactly when no permission changes, and two steps are symmetric exactly when for every permission either both keep it or one gains what the other loses.",
      ["inputs"], "every pair of permission data, every pair of steps, every set of places", "Snapshot tests see the steps of particular programs only.", [AN + "stepper/mod.rs", AN + "permissions/mod.rs"], [("Difference impls, ValueStep", AN + "stepper/mod.rs"), ("PermissionsDataDiff::is_symmetric_diff", AN + "stepper/mod.rs")], hook=HOOK),
    P("C05", "A boundary is violated exactly when its use lacks a permission it needs",
      "For every use of a place: a borrow expects read, and write exactly when mutable; a reborrow likewise; a move read and own; a copy or a match read; an assignment read and write. A boundary is a violation exactly when some expected permission is not among the actual ones.",
      ["inputs"], "every kind of use, every pair of expected and actual permissions", "Tests check the boundaries of particular programs.", [AN + "boundaries/mod.rs"], [("ExpectedPermissions::from_*, PermissionsBoundary::is_violation", AN + "boundaries/mod.rs")], hook=HOOK),
    P("C06", "Loans, moves and initialization refine exactly the paths they affect",
      "For all borrow-checker facts about a body: at a point, a path lacks read by a loan exactly when a mutable loan conflicting with it is live there, and lacks write and own by a loan exactly when any conflicting loan is; the loan named is one of these. A move is in effect at every point that control reaches from it without an assignment conflicting with the moved path in between, starting after the move; there it moves the path, its interior and the move paths that contain it. A path may be uninitialized on entry to a point exactly when it, or a move path it contains, is so on exit of a preceding point.",
      ["inputs"], "every set of loans, moves, assignments, edges and initialization facts, every conflict between places", "Snapshots show particular programs; the rules are joins over relations that no test varies.", [AN + "permissions/output.rs"], [("derive_permission_facts", AN + "permissions/output.rs")], hook=HOOK),
    P("C07", "A place is writeable exactly when Rust's mutability rules allow it",
      "For every place: a local, what its fields hold and what boxes own is of a writeable type exactly when the local is declared mut; behind a mutable reference or raw pointer it is writeable no matter how the local is declared; behind a shared reference or a const raw pointer it is not, unless a mutable raw pointer lies in between; a mutable reference behind a shared one does not make it writeable.",
      ["inputs"], "every place, through references, raw pointers, boxes and fields", "Tests write through a few places, none through a box behind a reference or a raw pointer.", [AN + "permissions/output.rs"], [("never_write in derive_permission_facts", AN + "permissions/output.rs"), ("is_declared_readonly", AN + "permissions/context.rs")], hook=HOOK),
    P("C08", "A place can be owned exactly when Rust lets it be moved out of",
      "For every place: its type can have own permission exactly when no projection goes behind a reference or raw pointer (a box owns its content), none indexes an array or slice, and no containing type other than a box has a destructor.",
      ["inputs"], "every place, through references, raw pointers, boxes, fields, variants and indices", "Tests move out of a few places.", [AN + "permissions/context.rs"], [("is_path_drop_enabled, max_permissions", AN + "permissions/context.rs")], hook=HOOK),
    P("C09", "What is said of a path at a point is exactly what was derived for it",
      "For all derived facts: a path's permission data at a point carries exactly the facts for that path and that point (moved and by which move, uninitialized, each refinement and by which loan), its type's writeability and copyability, and its variable's liveness there. A path stands for its place, and a place for one path. A location's two points lead back to it; assignments and terminators of real blocks count as operational. A loan's region starts where the first code begins and ends where the last code ends at which it is live.",
      ["inputs"], "every set of facts, every path, every point, every span", "Tests look at a few programs' data.", [AN + "permissions/context.rs"], [("permissions_data_at_point, max_permissions", AN + "permissions/context.rs"), ("place_to_path, path_to_place, location_to_points, is_location_operational", AN + "permissions/context.rs"), ("construct_loan_regions", AN + "permissions/context.rs")], hook=HOOK),
    P("C10", "Loan regions show exactly the code where each loan is in effect",
      "For every body: exactly the loans issued at a visible span have a point, which is that span, and a region. The region covers exactly the spans of the nodes at which the loan is live, and its first and last, that lie between where it starts (never before the loan) and where it ends. The shown ranges are in order, apart, and cover what their parts cover.",
      ["inputs"], "every set of loans, spans and facts about where a loan is live", "No unit test looks at loan regions or the merging of ranges.", [AN + "mod.rs"], [("construct_loan_info, key_to_spans", AN + "mod.rs"), ("smooth_elements", AN + "mod.rs")], hook=HOOK),
    P("C11", "Dominance and post-dominance are exactly what the control-flow paths say",
      "For every control-flow graph, a block dominates another exactly when every path from the start to the latter passes through it, and post-dominates it exactly when every path from it to each exit does (for blocks that reach all exits; with a single exit, blocks that never reach it have no post-dominators). Locations of different blocks (post-)dominate as their blocks do; within a block the earlier dominates and the later post-dominates.",
      ["inputs"], "every control-flow graph", "Tests run on three graphs and a few program shapes.", [AN + "ir_mapper/post_dominators.rs", AN + "ir_mapper/mod.rs"], [("AllPostDominators::build", AN + "ir_mapper/post_dominators.rs"), ("IRMapper::dominates, post_dominates, ldominates, lpost_dominates", AN + "ir_mapper/mod.rs")], hook=HOOK),
    P("C12", "A HIR node's MIR locations are exactly those lowered from it",
      "For every body and HIR node, the mapper gives exactly the locations whose source scope belongs to the node (or, nested, to a node inside it), block by block and in order, leaving out cleanup blocks unless asked, unreachable blocks and empty false-edge blocks; none when there are none. The entry is the block that dominates all of them and the exit the one that post-dominates all, none if there is no such block; the entry and exit locations are those blocks' first and last.",
      ["inputs"], "every body, every HIR tree, every node", "No unit test; the analyses' snapshots depend on it for a few programs.", [AN + "ir_mapper/mod.rs", AN + "ir_mapper/mir_locations.rs"], [("IRMapper::new, get_mir_locations", AN + "ir_mapper/mod.rs"), ("MirOrderedLocations", AN + "ir_mapper/mir_locations.rs")], hook=HOOK),
    P("C13", "The cleaned control-flow graph keeps exactly the real edges of real blocks",
      "For every body, the cleaned graph has exactly the edges between blocks that are neither cleanup nor unreachable (an edge only to a false edge's imaginary target may be dropped); predecessors and successors agree. Its blocks are those that control reaches, each once. The location after another is the next statement, or the start of the only successor, or none.",
      ["inputs"], "every control-flow graph of a body", "One unit test on one if expression.", [AN + "ir_mapper/body_graph.rs"], [("CleanedBody", AN + "ir_mapper/body_graph.rs")], hook=HOOK),
    P("C14", "Permission steps cover the body with valid segments",
      "Whatever steps, branches and ends of branches the source asks for, in any body: each collection of segments is one unbroken line from where it starts to where it stands, every linear step starts at a location that dominates its end and ends at one that post-dominates its start, and every split starts where its branch does and ends at the start of one target of the branch's switch, one per target. A step goes on from the innermost open collection that leads to it, never past a join. A branch joins at the first block that all ways from its switch take. The end of a branch closes its own collections and those of branches found inside it, no others. Inserting a step that only some ways lead to is not an error, and nothing runs forever or panics.",
      ["inputs", "histories"], "every control-flow graph, every sequence of insertions, branches and ends", "Tests validate the segments of twenty programs; none inserts a step that only some ways lead to.", [AN + "stepper/segmented_mir.rs"], [("SegmentedMirBuilder", AN + "stepper/segmented_mir.rs")], hook=HOOK),
    P("C15", "Step scopes nest exactly as they are opened and closed",
      "For every sequence of scopes opened and closed, a new scope differs from all before, only the innermost open scope closes (never the outermost one), each step belongs to the innermost scope open when it is inserted, and a scope's parents are exactly the scopes open when it was opened.",
      ["histories"], "every sequence of opening, closing and inserting", "No test looks at scopes.", [AN + "stepper/segmented_mir.rs"], [("open_scope, close_scope, parent_scopes", AN + "stepper/segmented_mir.rs")], hook=HOOK),
    P("C16", "A flow between regions is valid exactly when the lifetimes allow it",
      "For every set of outlives constraints of a body: a region is abstract exactly when it equals a placeholder or a region of the return type; it contains the abstract regions and the borrows of locals that flow into it. A flow within equal regions is valid. Otherwise it lets a local outlive an abstract region exactly when a local's borrow flows into the source and the target is abstract; else it misses a constraint exactly when some abstract region flowing into the source is not known, directly or transitively, to outlive the abstract target; else it dangles exactly when a borrow in an error of a local invalidated at the exit flows into the source; else it is valid.",
      ["inputs"], "every set of outlives constraints, placeholders, known bounds and loans", "Tests have seven functions with one or two lifetimes; the tests of invalid flows are not even run, as their programs do not compile.", [AN + "permissions/flow.rs"], [("compute_flows, RegionFlows::flow_kind", AN + "permissions/flow.rs"), ("is_universal_subset", AN + "permissions/context.rs")], hook=HOOK),
    P("C17", "The first error is the earliest error of the body under analysis",
      "Whatever diagnostics the compiler reports while bodies are analysed one after another, the first error of the body being analysed is one of its errors, none begins before it, and there is none exactly if it has no error: warnings and errors of earlier bodies do not count. Every diagnostic is handed on to the compiler unchanged.",
      ["histories"], "every sequence of bodies, errors and warnings, with any spans", "Tests have at most one error per body.", [AQ + "errors/mod.rs"], [("track_body_diagnostics, track_diagnostic, get_span_of_first_error", AQ + "errors/mod.rs")], hook=HOOK),
    P("C18", "Each line shows exactly the permission steps that end on it",
      "For every segmented body, each segment and each joined branch has one table, kept with the location where it ends, of the differences between its ends; locals declared for a whole branch are in the branch's table and not in those within. A line shows a place's difference exactly if the place has a name in the source and is or was live, the difference is not empty (unless unchanged ones are asked for), the line does not lie after the first error, and no opposite difference of the place is on the line; each place once, in order.",
      ["inputs"], "every segmented body, every set of tables", "Snapshots show the lines of some programs; none had two tables of different branches end at one location.", [AN + "stepper/table_builder.rs"], [("TableBuilder::insert_collection, insert_branch, insert_segment", AN + "stepper/table_builder.rs"), ("prettify_permission_steps", AN + "stepper/table_builder.rs")], hook=HOOK),
    P("C19", "Move regions show exactly the code where each move is in effect",
      "For every body: exactly the moves at a visible span have a point, which is that span. Such a move has a region exactly if it is in effect somewhere; the region covers exactly the spans of the assignments and terminators, at or after the move in the source, where it is in effect, in order and apart.",
      ["inputs"], "every set of moves, spans and facts about where a move is in effect", "No test looks at move regions: none was ever shown for a visible move.", [AN + "mod.rs"], [("construct_move_info, key_to_spans, is_span_visible", AN + "mod.rs")], hook=HOOK),
    P("C20", "Code annotations are stripped exactly and reported at the right places",
      "For every code text of an Aquascope block, the cleaned code is the text with exactly its `[..]`, `(..)` and `{..}` markers (and the leading # of hidden lines, the \\ of escaped \\#) removed, line by line. Hidden lines, boundary lines, focused lines and path matchers are reported for exactly the lines that carry them, and every interpreter marker gives one state location: the character position it has in the cleaned code. No text makes the parser fail or panic.",
      ["inputs"], "every code text", "A single unit test parses one well-formed ASCII snippet.", [MD + "annotations.rs"], [("parse_annotations", MD + "annotations.rs")], hook=HOOK),
    P("C21", "Every Aquascope block in a chapter is found with its own header and code",
      "For every chapter text, parsing yields exactly the ```aquascope blocks in order, each with its exact text range, operations split at +, settings in order (a setting without a value being true), and the trimmed code with its annotations taken out. Nothing else is taken for a block, and no text makes it panic.",
      ["inputs"], "every chapter text", "Two unit tests parse two fixed blocks.", [MD + "block.rs"], [("AquascopeBlock::parse", MD + "block.rs"), ("AquascopeBlock::parse_all", MD + "block.rs")], hook=HOOK),
    P("C22", "Inline @Perm references are replaced by exactly the permission they name",
      "For every chapter text, each @Perm{p} or @Perm[option]{p} gives one replacement covering exactly the reference, with the markup of that permission (read R, write W, own O, flow F) and of the option (gained, lost or missing). An unknown permission or option is reported as an error, never accepted and never a panic; other text is left alone.",
      ["inputs"], "every chapter text", "Unit tests parse three fixed references, all valid.", [MD + "permissions.rs"], [("parse_perms", MD + "permissions.rs")], hook=HOOK),
    P("C23", "A cached response is reused only for the block it was computed for",
      "Two blocks share a cache key exactly when their operations, settings and code all agree. For every sequence of stores and lookups, a lookup hits exactly the keys stored before and returns the response stored last, and any change marks the cache for saving.",
      ["inputs", "histories"], "every pair of blocks, every sequence of cache operations", "The cache has no tests; a stale hit shows only for particular pairs of blocks.", [MD + "cache.rs", MD + "block.rs"], [("Hash for AquascopeBlock", MD + "block.rs"), ("Cache::get, Cache::set, hash", MD + "cache.rs")], hook=HOOK),
    P("C24", "A trace keeps exactly the last state of each run of steps at one place",
      "For every sequence of low-level steps and every mapping of low-level locations to source locations, the shown trace has one step for each maximal run of consecutive mapped steps whose innermost frame is at the same source location: the last step of that run, unchanged (all its frames with names, bodies and locals, and its heap), each frame at its mapped location, in order. Steps with an unmapped frame are left out. The result of the execution is kept.",
      ["histories"], "every sequence of steps, every mapping", "One unit test groups three steps of one frame.", [IN + "mapper.rs"], [("group_steps", IN + "mapper.rs")], hook=HOOK),
    P("C25", "A shown pointer leads to exactly what it points to",
      "For every value of structs, tuples, arrays and integers (in a local or as an element of a vector) and every part of it, a reference to that part is shown as a path which, followed through the shown value (fields of size zero of structs are not shown), ends at a part of it that begins at the address pointed to and contains what is pointed to, whatever order and padding the compiler gives the fields. A reference to a slice of a vector has the indices of its first and last element. No such pointer makes the interpreter panic.",
      ["inputs"], "every type of the kind, every part of its values", "Snapshots have pointers to fields of one struct whose fields need no padding.", [IN + "miri_utils.rs", IN + "mvalue.rs"], [("locate_address_in_type, AddressLocator", IN + "miri_utils.rs"), ("Reader::read_pointer", IN + "mvalue.rs")], hook=HOOK),
    P("C26", "A long array is abbreviated to its first eleven elements and its last",
      "An array, vector or string of up to 12 elements is shown whole; a longer one by its first 11 elements and its last one, each being the element at its position.",
      ["inputs"], "every length and every element", "Snapshots have one or two lengths.", [IN + "mvalue.rs"], [("Abbreviated::new, Abbreviated::map", IN + "mvalue.rs")], hook=HOOK),
    P("C27", "A local is shown as moved exactly while it is moved out of",
      "At each step of an execution, a local of a frame is marked as moved exactly if the execution moved it as a whole and has since neither assigned it (a call's destination is assigned when the call returns) nor begun its storage anew. Moves in one frame do not mark locals of another, also in recursive calls.",
      ["histories"], "every sequence of moves, assignments, calls and returns", "Snapshots have single moves; in none is a local assigned again, and none moves a local whose address was taken.", [IN + "step.rs"], [("collect_moves, handle_moves, MovedPlaces", IN + "step.rs")], hook=HOOK),
    P("C28", "A dangling pointer is named alike in every step and in the result",
      "Two mentions of dead allocations in a trace, in any of its steps or in the use after free that is its result, have the same number exactly if they are the same allocation. A use after free is reported as the trace's result. Each step has its own heap.",
      ["histories"], "every sequence of mentions and steps", "Snapshots have at most one dangling pointer.", [IN + "step.rs"], [("remap_alloc_id, build_heap, beautify_error", IN + "step.rs")], hook=HOOK),
    P("C29", "A local is shown exactly when all of its value has been written",
      "For every type of structs, tuples, arrays and integers, a local in memory is shown at a step exactly if every integer in it, on whatever level, has been written; padding between or after fields, on whatever level and in whatever order the compiler lays the fields out, does not hide it.",
      ["inputs"], "every type of the kind, every set of written parts", "Snapshots have no local with padding below its first level, and none that is partly written.", [IN + "step.rs"], [("mem_is_initialized, test_local", IN + "step.rs")], hook=HOOK),
]
NOT_APPLICABLE = {}
