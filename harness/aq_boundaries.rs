// Permission boundaries: what each kind of use expects, and when it is a violation.
use super::*;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
use vs::*;
use rustc_middle::ty::adjustment::AllowTwoPhase;

fn any_perms(n: &str) -> Permissions { Permissions { read: any_bool(n), write: any_bool(n), drop: any_bool(n) } }
fn is(e: ExpectedPermissions, r: bool, w: bool, d: bool) -> bool { let p: Permissions = e.into(); (p.read == r) & (p.write == w) & (p.drop == d) }

#[no_mangle] pub extern "C-unwind" fn h_boundary_violation() {
  let (expected, actual) = (any_perms("expected"), any_perms("actual"));
  let data = PermissionsData { type_droppable: any_bool("d"), type_writeable: any_bool("d"), type_copyable: any_bool("d"), is_live: any_bool("d"), path_uninitialized: any_bool("d"), path_moved: None, loan_read_refined: None, loan_write_refined: None, loan_drop_refined: None };
  let b = PermissionsBoundary { location: CharPos { line: 0, column: 0 }, byte_location: BytePos(0), expected, actual, data, expecting_flow: None };
  let want = (expected.read & !actual.read) | (expected.write & !actual.write) | (expected.drop & !actual.drop);
  check(b.is_violation() == want, "a violation is an expected permission that is missing");
  if want { cover("violation"); } else { cover("no violation"); }
}
#[no_mangle] pub extern "C-unwind" fn h_boundary_expected() {
  check(is(ExpectedPermissions::from_assignment(), true, true, false), "an assignment needs read and write");
  check(is(ExpectedPermissions::from_move(), true, false, true), "a move needs read and own");
  check(is(ExpectedPermissions::from_copy(), true, false, false), "a copy needs read");
  check(is(ExpectedPermissions::from_discriminant(), true, false, false), "a match needs read");
  let m = any_bool("mutable");
  check(is(ExpectedPermissions::from_borrow(if m { Mutability::Mut } else { Mutability::Not }), true, m, false), "a borrow needs write exactly when mutable");
  let t = any_bool("two-phase");
  let r = if m { AutoBorrowMutability::Mut { allow_two_phase_borrow: if t { AllowTwoPhase::Yes } else { AllowTwoPhase::No } } } else { AutoBorrowMutability::Not };
  check(is(ExpectedPermissions::from_reborrow(r), true, m, false), "a reborrow needs write exactly when mutable");
  cover("expected");
}
