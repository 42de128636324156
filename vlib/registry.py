"""What each check runs: harness entries, their parameters and bounds, the reachability witnesses they must produce."""


class Run:
    def __init__(self, entry, params=(), covers=(), bounds="", tiers=("quick", "thorough"), secs=400, max_inst=400_000_000, hang=False):
        # hang: a path longer than max_inst is a violation (confirmed by a replay that does not end either), not an error
        self.hang = hang
        self.entry, self.params, self.covers, self.bounds, self.tiers, self.secs, self.max_inst = entry, tuple(params), tuple(covers), bounds, tiers, secs, max_inst


class Check:
    def __init__(self, pkg, cfgs, runs, stubs=(), nops=(), assumptions=(), outside="", limit=800, overrides=()):
        self.pkg, self.cfgs, self.runs, self.stubs, self.nops = pkg, cfgs, runs, list(stubs), list(nops)
        self.assumptions, self.outside, self.limit, self.overrides = list(assumptions), outside, limit, list(overrides)
        self.stubs += self.overrides  # replaced in replays too

    def stubs_used(self):
        return [s.split("=")[1] for s in self.stubs]


Q, T = ("quick",), ("thorough",)
HASH = ["BuildHasher8hash_one=vstub_hash"]
# functions of the compiler's libraries without bitcode -> their counterparts in harness/aq_stubs.rs
LIBS = ["?8grow_one=vstub_grow_any", "?14reserve_rehash=vstub_rehash_any", "31clear_excess_bits_in_final_word=vstub_clear_excess", "3mirNtB5_8LocationNtNtCsbkcKIAvlTL4_4core3fmt5Debug3fmt=vstub_debug", "3mirNtB6_10BasicBlockNtNtCsbkcKIAvlTL4_4core3fmt5Debug3fmt=vstub_debug",
        "9traversaluNtB5_13Customization10successors=vstub_successors", "3mirNtB5_4Body11source_info=vstub_source_info", "3mirNtB5_4Body7stmt_at=vstub_stmt_at", "4Span8contains=vstub_span_contains", "4Span8overlaps=vstub_span_overlaps", "4Span2to=vstub_span_to",
        "4Span20overlaps_or_adjacent=vstub_span_adjacent", "4Span12source_equal=vstub_span_equal", "13span_encoding4SpanNtNtCsbkcKIAvlTL4_4core3cmp3Ord3cmp=vstub_span_cmp", "4Span10trim_start=vstub_span_trim", "4Span7between=vstub_span_between", "4Span5until=vstub_span_until",
        "4Span20find_ancestor_inside=vstub_span_ancestor_inside", "4Span26find_ancestor_in_same_ctxt=vstub_span_ancestor_same", "4Span19in_derive_expansion=vstub_span_not",
        "syntax5Place11is_indirect=vstub_place_indirect", "syntax5Place28is_indirect_first_projection=vstub_place_indirect_first", "8PlaceRef11is_indirect=vstub_ref_indirect", "8PlaceRef28is_indirect_first_projection=vstub_ref_indirect_first",
        "11BasicBlocks10dominators=vstub_dominators", "8Location17is_predecessor_of=vstub_is_predecessor"]
LIB_NOPS = ["alloc2rcINtB5_2RcAyj20_E9drop_slow"]
A_HASH = "Hash maps are explored with every key hashing to 0: their answers do not depend on the hash values (std/hashbrown trusted for that)."
A_ENGINE = "The symbolic executor (engine/), the rustc/LLVM front end up to bitcode at -O1 without LLVM's inliner, and Z3 4.8.12 are trusted; every reachability witness is re-run natively as a cross-check."
A_MEM = "Allocation never fails; reads of uninitialised memory give 0; code is single-threaded."
BASE = [A_ENGINE, A_MEM]

CHECKS = {}

A_STR = "Text bytes not written as symbolic are fixed by the harness shape given in the bounds; regex compilation and matching are executed, not modelled."

CHECKS["C20"] = Check("mdbook-aquascope", ["annotations"], [
    Run("h_annot_line", [6], ["no marker", "state location", "boundary line", "hidden line"], "one line of any 6 ASCII characters (no line breaks)"),
    Run("h_annot_wide", [1, 1], ["two markers", "wide character", "state location"], "two lines, each a marker of any kind (opening and closing symbols independent) next to any characters; the first line's of up to 3 UTF-8 bytes"),
    Run("h_annot_config", [1], ["focused line", "path matcher"], "a stepper marker with one setting: focu?, paths??, rxpaths?? or any two characters"),
    Run("h_annot_lines", [5, 2], ["state location", "hidden line"], "a line of any 5 and one of any 2 ASCII characters, then one with a state marker"),
    Run("h_annot_two", [1, 1], ["two markers", "state location", "boundary line"], "a line with two markers of any kind, an ASCII character before, between, after and in the first"),
    Run("h_annot_lines", [4, 3], ["state location", "hidden line"], "lines of 4 and 3 characters before the marker", tiers=T, secs=6000),
    Run("h_annot_line", [7], ["state location"], "one line of any 7 ASCII characters", tiers=T, secs=2000),
    Run("h_annot_config", [2], ["focused line", "path matcher"], "a stepper marker with two settings of those shapes", tiers=T, secs=3000),
], stubs=HASH, assumptions=BASE + [A_HASH, A_STR], outside="lines longer than the bound, more than two markers on a line, carriage returns, characters beyond U+FFFF")
CHECKS["C21"] = Check("mdbook-aquascope", ["block"], [
    Run("h_block_one", [4], ["block", "no block", "setting", "two operations", "code"], "```aquascope, any 4 ASCII characters, ```"),
    Run("h_block_two", [], ["second block", "setting"], "two candidate blocks with any one character of the first frame replaced by any ASCII character, and one any character between them"),
    Run("h_block_code", [0, 1, 0], ["block", "code"], "a block with a character of any width before, after and in its code", secs=300),
    Run("h_block_one", [5], ["block", "setting", "two operations"], "```aquascope, any 5 ASCII characters, ```", tiers=T, secs=3000),
    Run("h_block_code", [1, 1, 1], ["block", "code"], "a block with a character of any width before, after, in its operation and twice in its code", tiers=T, secs=6000),
], stubs=HASH, assumptions=BASE + [A_HASH, A_STR], outside="longer headers and code; more than two blocks")
CHECKS["C22"] = Check("mdbook-aquascope", ["permissions"], [
    Run("h_perm_name", [2, 1, 0], ["valid", "invalid"], "a character of any width, then a reference to a permission with its first two characters replaced by any ASCII"),
    Run("h_perm_name", [1, 0, 1], ["valid", "invalid"], "a reference with its first character replaced, then a character of any width"),
    Run("h_perm_option", [], ["option", "valid option", "invalid", "none"], "a reference with any 3 ASCII characters for the option, or one of four options with any character replaced"),
    Run("h_perm_two", [], ["two", "valid option"], "two references, any one character of the first replaced by any ASCII character, a character of any width between"),
    Run("h_perm_name", [3, 1, 1], ["valid", "invalid"], "characters of any width around a reference with its first three characters replaced", tiers=T, secs=6000),
    Run("h_perm_option", [4], ["option", "valid option", "invalid"], "any 4 ASCII characters for the option", tiers=T, secs=3000),
], stubs=HASH, assumptions=BASE + [A_HASH, A_STR], outside="longer texts; more than two references")
CHECKS["C23"] = Check("mdbook-aquascope", ["cache"], [
    Run("h_cache_key", [2, 1, 1], ["equal blocks", "different blocks"], "two blocks of up to 2 operations and 1 setting, strings of up to 1 byte"),
    Run("h_cache_key", [1, 1, 3], ["equal blocks", "different blocks"], "1 operation, 1 setting, code of up to 3 bytes"),
    Run("h_cache_map", [4], ["set", "hit", "miss"], "4 updates or lookups over 3 keys, two of them perhaps saved before"),
    Run("h_cache_map", [6], ["set", "hit", "miss"], "6 updates or lookups over 3 keys", tiers=T, secs=2000),
    Run("h_cache_key", [2, 2, 1], ["equal blocks", "different blocks"], "up to 2 settings", tiers=T, secs=3000),
], assumptions=BASE + ["Keys with equal SipHash-1-3 hashes of different blocks are outside the claim."], outside="longer strings and histories; loading and saving the file (I/O)")

A_STUB = "Generic functions of the compiler's own libraries that exist only inside librustc_driver (listed in harness/aq_stubs.rs) are replaced by copies written from rustc's sources for the symbolic run; replays use the real ones."


def aq(cfgs, runs, stubs=(), nops=(), assumptions=(), **k):
    return Check("aquascope", cfgs, runs, stubs=HASH + LIBS + list(stubs), nops=LIB_NOPS + list(nops), assumptions=BASE + [A_STUB] + list(assumptions), **k)


CHECKS["C01"] = aq(["aq_permissions"], [
    Run("h_perm_rules", [], ["all", "read only", "read and own", "none", "dead"], "all values of the facts about a path at a point (five flags, four optional 32-bit keys)"),
    Run("h_perm_join", [], ["changed", "unchanged"], "all pairs of permissions"),
], outside="nothing: the functions' whole input space is covered")
CHECKS["C04"] = aq(["aq_steps"], [
    Run("h_step_perms", [], ["empty", "step"], "all pairs of permissions"),
    Run("h_step_data", [], ["empty", "step"], "all pairs of permission data (five flags, four optional 32-bit keys each)"),
    Run("h_step_symmetric", [], ["symmetric", "not symmetric"], "all pairs of permission steps"),
    Run("h_step_domain", [2], ["places"], "domains of 2 places in any insertion order"),
    Run("h_step_domain", [3], ["places"], "domains of 3 places", tiers=T, secs=2000),
], assumptions=[A_HASH], outside="domains of more places")
CHECKS["C05"] = aq(["aq_boundaries"], [
    Run("h_boundary_violation", [], ["violation", "no violation"], "all pairs of expected and actual permissions"),
    Run("h_boundary_expected", [], ["expected"], "all kinds of use, mutability and two-phase"),
], outside="which HIR expressions give boundaries (needs a type-checked crate)")
# The HIR map is replaced in replays too: the harness's bodies have no crate to look into.
HIR_MAP = ["3hir3mapNtB5_3Map14node_to_string=vstub_node_to_string", "17ParentHirIteratorNtNtNtNt=vstub_parent_next"]
CHECKS["C11"] = aq(["aq_ir_mapper"], [
    Run("h_pdom", [3, 1], ["post-dominated", "not post-dominated"], "all graphs of 3 blocks, 1 exit"),
    Run("h_pdom", [3, 2], ["not post-dominated"], "all graphs of 3 blocks, 2 exits"),
    Run("h_pdom", [4, 1], ["post-dominated", "not post-dominated"], "all graphs of 4 blocks, 1 exit"),
    Run("h_pdom", [4, 2], ["post-dominated", "not post-dominated"], "all graphs of 4 blocks, 2 exits"),
    Run("h_dominance", [2, 1, 1], ["dominated", "not dominated", "post-dominated"], "all bodies of 2 blocks ending in return, goto, switch, unreachable or a false unwind, cleanup or not; any statements of theirs"),
    Run("h_dominance", [3, 0, 0], ["dominated", "not dominated", "post-dominated"], "all bodies of 3 blocks ending in return, goto or switch"),
    Run("h_dominance", [3, 1, 0], ["dominated", "not dominated", "post-dominated"], "all bodies of 3 blocks of any of those kinds", tiers=T, secs=3000),
    Run("h_dominance", [4, 0, 0], ["dominated", "not dominated", "post-dominated"], "all bodies of 4 blocks ending in return, goto or switch", tiers=T, secs=6000),
    Run("h_pdom", [5, 1], ["post-dominated", "not post-dominated"], "all graphs of 5 blocks, 1 exit", tiers=T, secs=9000),
], overrides=HIR_MAP, outside="larger graphs; blocks that do not reach every exit, when there are several exits")
CHECKS["C12"] = aq(["aq_ir_mapper"], [
    Run("h_locations", [2, 1, 1, 0, 1], ["entry and exit", "no entry"], "all bodies of 2 blocks with up to one statement, ending in return, goto, switch, a false edge or unreachable, cleanup or not; one HIR node"),
    Run("h_locations", [2, 2, 1, 0, 1], ["entry and exit", "no entry", "no location"], "the same, every location belonging to one of 2 HIR nodes, one perhaps inside the other"),
    Run("h_locations", [3, 1, 0, 1, 0], ["entry and exit", "no entry"], "all bodies of 3 blocks without statements ending in return, goto or switch"),
    Run("h_locations", [2, 3, 1, 0, 1], ["entry and exit", "no entry", "no location"], "3 HIR nodes in any tree", tiers=T, secs=6000),
    Run("h_locations", [3, 1, 1, 0, 0], ["entry and exit", "no entry"], "all bodies of 3 blocks with up to one statement", tiers=T, secs=6000),
], overrides=HIR_MAP, assumptions=["The HIR tree is the harness's: ParentHirIterator::next walks it instead of the compiler's."], outside="larger bodies; entry and exit blocks of bodies with false edges; exits of blocks that do not reach every return")
CHECKS["C13"] = aq(["aq_ir_mapper"], [
    Run("h_cleaned", [2, 1, 1], ["next", "no next", "predecessor", "removed", "successor"], "all bodies of 2 blocks with up to one statement, ending in return, goto, switch, unreachable, a false edge or a false unwind, cleanup or not"),
    Run("h_cleaned_blocks", [2, 1, 1], ["left out"], "the same, without false edges; both with up to one statement"),
    Run("h_cleaned_blocks", [3, 0], ["kept", "left out"], "all bodies of 3 blocks ending in return, goto, switch or unreachable, cleanup or not"),
    Run("h_cleaned", [3, 0], ["next", "no next", "predecessor", "removed", "successor"], "all bodies of 3 blocks ending in return, goto, switch, unreachable or a false edge, cleanup or not"),
    Run("h_cleaned_blocks", [4, 0], ["kept", "left out"], "4 blocks", tiers=T, secs=6000),
], outside="larger bodies; whether an edge only to a false edge's imaginary target stays")
CHECKS["C14"] = aq(["aq_segments"], [
    Run("h_segments", [3, 0, 2, 0, 1], ["branch", "no branch", "closed", "linear", "left out"], "all bodies of 3 blocks ending in return, goto or switch, that can be reached and return; any 2 insertions, branches or closings", hang=True, max_inst=8_000_000),
    Run("h_segments", [4, 0, 2, 0, 1], ["branch", "join", "implicit branch", "closed", "linear", "left out"], "4 blocks, any 2 operations", hang=True, max_inst=8_000_000),
    Run("h_segments", [4, 0, 3, 0, 0], ["branch", "join", "implicit branch", "closed"], "4 blocks, any 3 operations", hang=True, max_inst=8_000_000),
    Run("h_segments", [0, 0, 4, 0, 1, 2], ["join", "implicit branch", "two implicit branches", "closed"], "a chain of 2 switches with any returns and joins of their sides; a branch at the start, any 2 insertions, its end", hang=True, max_inst=20_000_000),
    Run("h_segments", [0, 0, 3, 0, 1, 3], ["join", "implicit branch", "two implicit branches", "closed"], "a chain of 3 switches, any insertion", hang=True, max_inst=20_000_000),
    Run("h_segments_end", [3, 2, 3, 0, 1], ["branch", "inserted"], "all bodies of 3 blocks ending in return, goto or switch; any 2 operations", hang=True, max_inst=8_000_000),
    Run("h_segments_end", [3, 3, 5, 0, 0], ["branch", "inserted"], "all bodies of 3 blocks ending in return, goto, switch, a false edge or unreachable; any 3 operations", hang=True, max_inst=8_000_000),
    Run("h_segments", [3, 1, 2, 0, 1], ["branch", "closed", "linear"], "3 blocks with a statement each", tiers=T, secs=2000, hang=True, max_inst=8_000_000),
    Run("h_segments", [4, 0, 2, 1, 0], ["branch", "closed", "linear"], "4 blocks, false edges too", tiers=T, secs=2000, hang=True, max_inst=8_000_000),
    Run("h_segments", [0, 0, 4, 0, 1, 3], ["join", "two implicit branches"], "a chain of 3 switches, any 2 insertions", tiers=T, secs=6000, hang=True, max_inst=40_000_000),
    Run("h_segments", [5, 0, 2, 0, 0], ["branch", "join"], "5 blocks", tiers=T, secs=6000, hang=True, max_inst=8_000_000),
], assumptions=[A_HASH, "A branch is opened only at a location that dominates its switch, and its targets' spans leave their locations alone."], overrides=HIR_MAP, outside="larger bodies and more operations; joins in bodies that do not end")
CHECKS["C15"] = aq(["aq_segments"], [
    Run("h_scopes", [6], ["closed", "not closed", "nested", "segment"], "any 6 scopes opened, scopes closed (any of them) and segments inserted"),
    Run("h_scopes", [8], ["closed", "not closed", "nested", "segment"], "8 operations", tiers=T, secs=2000),
], assumptions=[A_HASH], overrides=HIR_MAP, outside="longer histories")

# The compiler's answers about types and places are the harness's, in replays too: no crate has been compiled there.
PLACES = ["PlaceExt$GT$14interior_paths=vstub_interior_paths", "PlaceExt$GT$9normalize=vstub_normalize", "15places_conflict=vstub_places_conflict", "14mk_place_elems=vstub_mk_place_elems", "17body_owner_def_id=vstub_body_owner", "9BorrowSetINtNtNtCsbkcKIAvlTL4_4core3ops5index5IndexNtNtB6_8dataflow11BorrowIndexE5index=vstub_borrow",
          "13projection_ty=vstub_projection_ty", "6AdtDef8has_dtor=vstub_has_dtor", "TyExt$GT$11is_copyable=vstub_is_copyable"]
PLACE_STUBS = ["11start_index=vstub_start_index", "9mid_index=vstub_mid_index", "11to_location=vstub_to_location", "NtB5_8MovePath7parents=vstub_parents", "9Iteration7changed=vstub_changed", "9LocalDecl10local_info=vstub_local_info", "9LocalDecl19can_be_made_mutable=vstub_can_be_made_mutable", "9LocalDecl16is_user_variable=vstub_is_user_variable", "9LocalDecl16is_ref_for_guard=vstub_is_ref_for_guard", "9LocalDecl17is_nonref_binding=vstub_is_nonref_binding"]
A_PLACES = "What a place contains, which places conflict, the type of a projection, whether a type is copyable or has a destructor, and which borrow a loan is of are tables of the harness (any conflicts between places, at least each with itself); the compiler's own answers are trusted."
CHECKS["C06"] = aq(["aq_facts"], [
    Run("h_facts_loans", [1, 2, 2, 6], ["not readable", "not writeable", "not ownable", "not refined"], "1 loan of any kind of any of 5 places, any conflicts of places, 2 facts about where it is live over 2 points"),
    Run("h_facts_loans", [2, 1, 1, 3], ["not readable", "not writeable", "not ownable", "not refined"], "2 loans, 1 point"),
    Run("h_facts_moves", [1, 3, 0, 1], ["in effect", "not in effect", "moved"], "6 points in a row, 1 move of any of 4 paths at any location, 1 assignment of any path at any point"),
    Run("h_facts_moves", [1, 2, 0, 1, 1], ["in effect", "not in effect", "moved"], "4 points in a row, 1 move, 1 assignment; the move paths nest twice"),
    Run("h_facts_moves", [2, 2, 0, 1], ["in effect", "not in effect", "moved"], "4 points in a row, 2 moves, 1 assignment"),
    Run("h_facts_moves", [1, 2, 1, 1], ["in effect", "not in effect", "moved"], "4 points in a row and any further edge between them, 1 move, 1 assignment"),
    Run("h_facts_init", [4, 2, 0, 2], ["initialized", "uninitialized"], "4 points in a row, 2 facts about which path is uninitialized after which point, any containment of paths"),
    Run("h_facts_init", [3, 2, 1, 2], ["initialized", "uninitialized"], "3 points in a row and any further edge"),
    Run("h_facts_init", [3, 1, 0, 2, 1], ["initialized", "uninitialized"], "3 points in a row, 1 fact; the move paths nest twice"),
    Run("h_facts_loans", [2, 2, 2, 5], ["not readable", "not refined"], "2 loans, 2 facts, 2 points", tiers=T, secs=3000),
    Run("h_facts_moves", [2, 2, 1, 1], ["in effect", "moved"], "2 moves, a further edge", tiers=T, secs=6000),
    Run("h_facts_moves", [1, 3, 1, 1], ["in effect", "moved"], "6 points, a further edge", tiers=T, secs=6000),
    Run("h_facts_moves", [1, 2, 1, 2], ["in effect", "moved"], "2 assignments", tiers=T, secs=6000),
    Run("h_facts_init", [4, 3, 1, 2], ["initialized", "uninitialized"], "3 facts, 4 points, a further edge", tiers=T, secs=6000),
], stubs=PLACE_STUBS, overrides=HIR_MAP + PLACES, assumptions=[A_HASH, A_PLACES], outside="more loans, moves, points and places; Polonius' own output, which is an input here")
CHECKS["C07"] = aq(["aq_facts"], [
    Run("h_facts_write", [3], ["writeable", "not writeable", "box"], "every place of up to 3 projections through references, raw pointers, boxes and fields; its local mutable or not, a variable, an implicit self or a temporary"),
    Run("h_facts_write", [4], ["writeable", "not writeable", "box"], "up to 4 projections", tiers=T, secs=3000),
], stubs=PLACE_STUBS, overrides=HIR_MAP + PLACES, assumptions=[A_HASH, A_PLACES], outside="deeper places")
CHECKS["C08"] = aq(["aq_context"], [
    Run("h_ctx_drop", [3], ["can be owned", "cannot be owned", "box"], "every place of up to 3 projections through references, raw pointers, boxes, fields, indices and variants, of types with and without destructors"),
    Run("h_ctx_drop", [4], ["can be owned", "cannot be owned", "box"], "up to 4 projections", tiers=T, secs=3000),
], stubs=PLACE_STUBS, overrides=HIR_MAP + PLACES, assumptions=[A_HASH, A_PLACES], outside="deeper places")
CHECKS["C09"] = aq(["aq_context"], [
    Run("h_ctx_data", [1], ["refined", "not refined"], "a fact of each kind about any of 3 paths at any of 2 points; any path's data at the first"),
    Run("h_ctx_points", [2, 2], ["operational", "not operational"], "all bodies of 2 blocks with up to 2 statements, assignments or not, ending in return or unreachable, cleanup or not"),
    Run("h_ctx_paths", [4], ["paths", "place given twice"], "any 4 paths of 4 places"),
    Run("h_ctx_regions", [2, 3, 2], ["region", "never live"], "2 loans, 3 facts about where they are live, 2 locations with any spans within 16 bytes"),
    Run("h_ctx_regions", [2, 3, 3], ["region", "never live"], "3 locations"),
    Run("h_ctx_data", [2], ["refined", "not refined"], "3 points", tiers=T, secs=3000),
    Run("h_ctx_regions", [3, 4, 3], ["region"], "3 loans, 4 facts", tiers=T, secs=6000),
], stubs=PLACE_STUBS, overrides=HIR_MAP + PLACES, assumptions=[A_HASH, A_PLACES], outside="several facts of a kind, more points; spans of macro expansions")

# The source is the harness's: spans are byte ranges of one line, none within a macro.
SPANS = ["4Span15source_callsite=vstub_source_callsite", "3hir3mapNtB5_3Map4span=vstub_hir_span", "9CharRange9from_span=vstub_char_range"]
A_SPANS = "The spans of HIR nodes are a table of the harness, and CharRange::from_span numbers the bytes of one line instead of looking into a file."
CHECKS["C10"] = aq(["aq_smooth"], [
    Run("h_smooth_spans", [3], ["apart", "merged"], "up to 3 spans within 16 bytes, perhaps empty"),
    Run("h_smooth_ranges", [3], ["apart", "merged"], "up to 3 ranges over 3 lines of 8 columns"),
    Run("h_info_loans", [2, 1, 2], ["in effect", "not in effect", "not visible", "two ranges"], "2 locations with any spans, any of their nodes' within 16 bytes; 1 loan from any location with any region, live at any 2"),
    Run("h_info_loans", [3, 1, 1], ["in effect", "not in effect", "not visible", "two ranges"], "3 locations, 1 loan, live at any"),
    Run("h_smooth_spans", [4], ["apart", "merged"], "up to 4 spans", tiers=T, secs=3000),
    Run("h_smooth_ranges", [4], ["apart", "merged"], "up to 4 ranges", tiers=T, secs=3000),
    Run("h_info_loans", [2, 2, 1], ["in effect", "not in effect", "two ranges"], "2 loans", tiers=T, secs=6000),
    Run("h_info_loans", [3, 1, 2], ["in effect", "not in effect", "two ranges"], "3 locations, live at any 2", tiers=T, secs=6000),
], stubs=PLACE_STUBS, overrides=HIR_MAP + PLACES + SPANS, assumptions=[A_HASH, A_SPANS], outside="more spans, loans and facts; code within macros; a region that starts or ends at a location with an empty span")
CHECKS["C19"] = aq(["aq_smooth"], [
    Run("h_info_moves", [3, 1, 2], ["in effect", "not in effect", "not visible", "two ranges"], "3 locations with any spans, any of their nodes' within 16 bytes, assignments or not; 1 move at any of them, in effect for any of 2 paths at any 2 points"),
    Run("h_info_moves", [2, 2, 1], ["in effect", "not in effect", "not visible"], "2 locations, 2 moves, 1 fact"),
    Run("h_info_moves", [2, 2, 2], ["in effect", "two ranges"], "2 facts", tiers=T, secs=3000),
    Run("h_info_moves", [3, 1, 3], ["in effect", "two ranges"], "3 locations, 3 facts", tiers=T, secs=6000),
], stubs=PLACE_STUBS, overrides=HIR_MAP + PLACES + SPANS, assumptions=[A_HASH, A_SPANS], outside="more moves and facts; code within macros")

FLOW = ["TypeWalker=vstub_walk_next", "7Instant3now=vstub_no_time", "7Instant7elapsed=vstub_no_time", "22is_ref_to_thread_local=vstub_no_thread_local"]
CHECKS["C16"] = aq(["aq_flow"], [
    Run("h_flow", [3, 2, 2, 1, 1, 1, 5], ["same", "local", "missing", "dangling", "valid"], "3 regions, 2 constraints between any, 2 placeholders and perhaps a returned region, 1 known bound between placeholders, 1 loan of any region, of the local, its field, what either points to or a field of that, perhaps in an error, perhaps invalidated at the exit"),
    Run("h_flow", [4, 3, 3, 2, 0, 0], ["same", "missing", "valid"], "4 regions, 3 constraints, 3 placeholders, 2 known bounds"),
    Run("h_flow", [3, 2, 1, 0, 2, 0], ["same", "local", "dangling", "valid"], "3 regions, 2 constraints, 1 placeholder, 2 loans"),
    Run("h_flow", [4, 3, 2, 1, 1, 1], ["same", "local", "missing", "dangling", "valid"], "4 regions, 3 constraints, a returned region, a loan", tiers=T, secs=6000),
    Run("h_flow", [4, 4, 3, 2, 0, 0], ["same", "missing", "valid"], "4 constraints", tiers=T, secs=6000),
    Run("h_flow", [5, 3, 3, 2, 0, 0], ["same", "missing", "valid"], "5 regions", tiers=T, secs=6000),
], stubs=PLACE_STUBS + ["?factsNtB4_17PoloniusRegionVidINtNtCsbkcKIAvlTL4_4core7convert4From=vstub_origin", "?4walkNtB7_2Ty4walk=vstub_walk", "Region6is_var=vstub_is_var", "Region6as_var=vstub_as_var"],
   overrides=HIR_MAP + PLACES + FLOW, assumptions=[A_HASH, A_PLACES, "The regions within the return type are the harness's."], outside="more regions, constraints and loans; the constraints themselves, which are the borrow checker's; closures and async functions, whose regions their creator relates")
DIAGS = ["9DiagInner8is_error=vstub_is_error", "vx_one_diag=vstub_one_diag"]
CHECKS["C17"] = aq(["aq_errors"], [
    Run("h_errors", [4], ["error", "no error", "first", "next body", "none"], "any 4 bodies begun or diagnostics reported, errors or not, with any spans within 20 bytes"),
    Run("h_errors", [6], ["error", "no error", "first", "next body", "none"], "any 6", tiers=T, secs=3000),
], stubs=DIAGS, outside="longer histories; which diagnostics the compiler reports")
LINES = ["23span_extend_to_line=vstub_extend_to_line", "19span_extend_to_line=vstub_extend_to_line", "11lookup_line=vstub_lookup_line", "PlaceExt$GT$17is_source_visible=vstub_source_visible", "PlaceExt$GT$9to_string=vstub_place_name"]
CHECKS["C18"] = aq(["aq_tables", "aq_errors"], [
    Run("h_tables_body", [2, 2], ["place", "left out", "two branches", "several tables at a location"], "a chain of 2 switches with any returns and joins of their sides: a branch at the start, any 2 insertions (one may be a branch at the second switch), a local perhaps declared for a branch"),
    Run("h_tables_lines", [1, 2], ["shown", "hidden"], "1 table"),
    Run("h_tables_lines", [2, 1], ["shown", "hidden", "cancelled", "clash"], "2 tables"),
    Run("h_tables_body", [3, 2], ["place", "left out", "two branches", "several tables at a location"], "3 switches", tiers=T, secs=6000),
    Run("h_tables_lines", [2, 2], ["shown", "hidden", "cancelled", "clash"], "2 tables of 2", tiers=T, secs=6000),
], stubs=PLACE_STUBS + DIAGS, overrides=HIR_MAP + PLACES + [s for s in SPANS if "vstub_hir_span" not in s] + LINES, assumptions=[A_HASH, "Lines are 8 bytes long; a place's name and visibility, and the level of a diagnostic, are the harness's."], outside="more insertions, tables and entries; which of several differences that are not opposite a line shows")

# The interpreter, over the stand-in for its git dependency
A_MIRI = "The dependency miri is not available offline: the interpreter is compiled against harness/miri, a small machine over the compiler's own MIR interpreter, which passes the interpreter's snapshot tests."
CHECKS["C24"] = aq(["aq_interp"], [
    Run("h_group", [3, 2, 3], ["merged", "not shown", "several"], "up to 3 steps of up to 2 frames, each at any of 3 locations with any mapping to 3 source locations or none"),
    Run("h_group", [4, 1, 3], ["merged", "not shown", "several"], "up to 4 steps of 1 frame"),
    Run("h_group", [4, 2, 3], ["merged", "not shown", "several"], "up to 4 steps of up to 2 frames", tiers=T, secs=3000),
    Run("h_group", [5, 1, 4], ["merged", "not shown", "several"], "up to 5 steps of 1 frame, 4 locations", tiers=T, secs=3000),
], assumptions=[A_MIRI], outside="longer traces")
CHECKS["C25"] = aq(["aq_interp"], [
    Run("h_path", [1, 3, 1, 0], ["whole", "within"], "a local that is an integer, an array of 2, or a struct or tuple of 3, of integers of any size or units; any part of it"),
    Run("h_path", [1, 2, 1, 3], ["whole", "within", "slice"], "a vector of 3 such, of 2 fields; any part of any element, any slice"),
    Run("h_path", [2, 2, 0, 0], ["whole", "within"], "a local of such types nested twice, 2 fields each", secs=300),
    Run("h_path", [1, 4, 1, 0], ["whole", "within"], "4 fields", tiers=T, secs=3000),
    Run("h_path", [2, 2, 1, 2], ["whole", "within", "slice"], "a vector of 2 nested twice, with units", tiers=T, secs=6000),
    Run("h_path", [2, 3, 0, 0], ["whole", "within"], "nested twice, 3 fields in the outer", tiers=T, secs=6000),
], stubs=["9item_name=vstub_item_name", "15to_ident_string=vstub_ident_string", "ty_and_layout_field=vstub_layout_field", "vx_native=vstub_native"],
   assumptions=[A_MIRI, "The layouts of types are computed by the harness with the compiler's rule; counterexamples and witnesses are replayed by running a program with these types through the whole interpreter."],
   outside="enums, closures, boxes, strings, pointers within values, types with niches or attributes; deeper types")
CHECKS["C26"] = aq(["aq_interp"], [
    Run("h_abbreviated", [20], ["all", "abbreviated"], "any length up to 20, any elements at distance 1"),
    Run("h_abbreviated", [60], ["all", "abbreviated"], "any length up to 60", tiers=T, secs=3000),
], assumptions=[A_MIRI], outside="longer arrays; elements that cannot be read")
CHECKS["C27"] = aq(["aq_interp"], [
    Run("h_moves", [4, 2, 2], ["moved", "not moved", "call", "return"], "any 4 operations (move, copy, call, return, intrinsic, storage begun or ended) on any of 2 locals in up to 2 frames"),
    Run("h_moves", [3, 3, 2], ["moved", "not moved", "call", "return"], "3 operations, 3 locals"),
    Run("h_moves", [5, 2, 3], ["moved", "not moved", "call", "return"], "5 operations, 3 frames", tiers=T, secs=3000),
    Run("h_moves", [4, 3, 2], ["moved", "not moved", "call", "return"], "4 operations, 3 locals", tiers=T, secs=3000),
], assumptions=[A_HASH, A_MIRI], outside="partial moves; longer executions; that the compiler's interpreter executes what is asked for")
CHECKS["C28"] = aq(["aq_interp"], [
    Run("h_dead", [3, 3], ["again", "another", "next step", "second"], "4 mentions of any of 3 allocations, with steps between any"),
    Run("h_dead", [4, 4], ["again", "another", "next step", "second"], "5 mentions of any of 4 allocations", tiers=T, secs=3000),
], assumptions=[A_HASH, A_MIRI], outside="more mentions; which allocations are dead, which the compiler's interpreter knows")
CHECKS["C29"] = aq(["aq_interp"], [
    Run("h_init", [1, 3, 1], ["shown", "hidden"], "a local that is an integer, an array of 2, or a struct or tuple of 3, of integers of any size or units; any of its integers written"),
    Run("h_init", [2, 2, 0], ["shown", "hidden"], "such types nested twice, 2 fields each", secs=300),
    Run("h_init", [1, 4, 1], ["shown", "hidden"], "4 fields", tiers=T, secs=3000),
    Run("h_init", [2, 3, 0], ["shown", "hidden"], "nested twice, 3 fields in the outer", tiers=T, secs=6000),
], stubs=CHECKS["C25"].stubs[len(HASH + LIBS):] + ["8InitMask20is_range_initialized=vstub_is_init"],
   assumptions=[A_MIRI, "The layouts of types are computed by the harness with the compiler's rule, and which bytes are initialized is a table of the harness's; counterexamples and witnesses are replayed by running a program with these types through the whole interpreter."],
   outside="enums, closures, unions, types with niches or attributes; deeper types")
