// The rules that turn permission facts about a path into its read, write and own permissions.
use super::*;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
use vs::*;
use rustc_mir_dataflow::JoinSemiLattice;

fn key(n: &str) -> Option<u32> { if any_bool(n) { Some(any(32, n) as u32) } else { None } }
pub fn any_data() -> PermissionsData {
  PermissionsData {
    type_droppable: any_bool("type_droppable"), type_writeable: any_bool("type_writeable"), type_copyable: any_bool("type_copyable"),
    is_live: any_bool("is_live"), path_uninitialized: any_bool("path_uninitialized"),
    path_moved: key("path_moved").map(MoveKey), loan_read_refined: key("loan_read").map(LoanKey),
    loan_write_refined: key("loan_write").map(LoanKey), loan_drop_refined: key("loan_drop").map(LoanKey),
  }
}
fn any_perms(n: &str) -> Permissions { Permissions { read: any_bool(n), write: any_bool(n), drop: any_bool(n) } }
fn same(a: Permissions, r: bool, w: bool, d: bool) -> bool { (a.read == r) & (a.write == w) & (a.drop == d) }

#[no_mangle] pub extern "C-unwind" fn h_perm_rules() {
  let d = any_data();
  let init = d.path_moved.is_none() & !d.path_uninitialized;
  let r = init & d.loan_read_refined.is_none();
  let w = r & d.type_writeable & d.loan_write_refined.is_none();
  let o = r & d.type_droppable & d.loan_drop_refined.is_none();
  check(same(d.permissions_ignore_liveness(), r, w, o), "the rules of read, write and own");
  let p = d.permissions();
  check(same(p, d.is_live & r, d.is_live & w, d.is_live & o), "a path that is not live has no permissions");
  if d.is_live & p.read & p.write & p.drop { cover("all"); }
  if d.is_live & p.read & !p.write & !p.drop { cover("read only"); }
  if d.is_live & p.read & !p.write & p.drop { cover("read and own"); }
  if d.is_live & !p.read { cover("none"); }
  if !d.is_live { cover("dead"); }
}
/// Permissions at a join of control flow.
#[no_mangle] pub extern "C-unwind" fn h_perm_join() {
  let (a, b) = (any_perms("a"), any_perms("b"));
  let mut j = a;
  let changed = j.join(&b);
  check(same(j, a.read & b.read, a.write & b.write, a.drop & b.drop), "a join keeps what both sides have");
  check(changed == !same(j, a.read, a.write, a.drop), "a join tells whether it changed");
  if changed { cover("changed"); } else { cover("unchanged"); }
  check(same(Permissions::bottom(), false, false, false), "bottom has no permission");
  check(same(Permissions::none(), false, false, false), "none has no permission");
  check(same(Permissions::all(), true, true, true), "all has every permission");
}
