// Permission steps: what a difference of permissions says, and when a step is worth showing.
use super::*;
#[allow(dead_code)] mod vs { include!(concat!(env!("AQUASCOPE_VERIF_DIR"), "/vs.rs")); }
use vs::*;
use rustc_middle::mir::Local;
use rustc_middle::ty::List;

fn key(n: &str) -> Option<u32> { if any_bool(n) { Some(any(32, n) as u32) } else { None } }
fn any_data() -> PermissionsData {
  PermissionsData {
    type_droppable: any_bool("type_droppable"), type_writeable: any_bool("type_writeable"), type_copyable: any_bool("type_copyable"),
    is_live: any_bool("is_live"), path_uninitialized: any_bool("path_uninitialized"),
    path_moved: key("path_moved").map(MoveKey), loan_read_refined: key("loan_read").map(LoanKey),
    loan_write_refined: key("loan_write").map(LoanKey), loan_drop_refined: key("loan_drop").map(LoanKey),
  }
}
fn fixed() -> PermissionsData {
  PermissionsData { type_droppable: true, type_writeable: true, type_copyable: false, is_live: true, path_uninitialized: false, path_moved: None, loan_read_refined: None, loan_write_refined: None, loan_drop_refined: None }
}
fn any_perms(n: &str) -> Permissions { Permissions { read: any_bool(n), write: any_bool(n), drop: any_bool(n) } }

fn bool_ok(a: bool, b: bool, d: ValueStep<bool>) -> bool {
  match d {
    ValueStep::High { value } => !a & b & value,
    ValueStep::Low => a & !b,
    ValueStep::None { value } => (a == b) & (value == Some(b)),
  }
}
fn opt_ok(a: Option<u32>, b: Option<u32>, kind: u8, v: Option<u32>) -> bool {
  match (a, b) {
    (None, Some(x)) => (kind == 0) & (v == Some(x)),
    (Some(_), None) => kind == 1,
    (None, None) => (kind == 2) & v.is_none(),
    (Some(_), Some(x)) => (kind == 2) & (v == Some(x)),
  }
}
fn loan(d: ValueStep<LoanKey>) -> (u8, Option<u32>) {
  match d { ValueStep::High { value } => (0, Some(value.0)), ValueStep::Low => (1, None), ValueStep::None { value } => (2, value.map(|v| v.0)) }
}
fn mv(d: ValueStep<MoveKey>) -> (u8, Option<u32>) {
  match d { ValueStep::High { value } => (0, Some(value.0)), ValueStep::Low => (1, None), ValueStep::None { value } => (2, value.map(|v| v.0)) }
}
fn perms_ok(a: Permissions, b: Permissions, d: PermissionsDiff) -> bool {
  bool_ok(a.read, b.read, d.read) & bool_ok(a.write, b.write, d.write) & bool_ok(a.drop, b.drop, d.drop)
}
fn data_ok(a: &PermissionsData, b: &PermissionsData, d: &PermissionsDataDiff) -> bool {
  let l = |x: Option<LoanKey>, y: Option<LoanKey>, d: ValueStep<LoanKey>| { let (k, v) = loan(d); opt_ok(x.map(|v| v.0), y.map(|v| v.0), k, v) };
  let (k, v) = mv(d.path_moved);
  bool_ok(a.is_live, b.is_live, d.is_live) & bool_ok(a.type_droppable, b.type_droppable, d.type_droppable) & bool_ok(a.type_writeable, b.type_writeable, d.type_writeable)
    & bool_ok(a.path_uninitialized, b.path_uninitialized, d.path_uninitialized) & opt_ok(a.path_moved.map(|v| v.0), b.path_moved.map(|v| v.0), k, v)
    & l(a.loan_read_refined, b.loan_read_refined, d.loan_read_refined) & l(a.loan_write_refined, b.loan_write_refined, d.loan_write_refined)
    & l(a.loan_drop_refined, b.loan_drop_refined, d.loan_drop_refined) & perms_ok(a.permissions(), b.permissions(), d.permissions)
}

#[no_mangle] pub extern "C-unwind" fn h_step_perms() {
  let (a, b) = (any_perms("a"), any_perms("b"));
  let d = a.diff(b);
  check(perms_ok(a, b, d), "a permission step is up, down or none");
  let same = (a.read == b.read) & (a.write == b.write) & (a.drop == b.drop);
  check(d.is_empty() == same, "a step is empty when no permission changes");
  if same { cover("empty"); } else { cover("step"); }
}
#[no_mangle] pub extern "C-unwind" fn h_step_data() {
  let (a, b) = (any_data(), any_data());
  let d = a.diff(b);
  check(data_ok(&a, &b, &d), "every field of a step compares before with after");
  let (p, q) = (a.permissions(), b.permissions());
  let same = (p.read == q.read) & (p.write == q.write) & (p.drop == q.drop);
  check(d.is_empty() == same, "a step is empty when no permission changes");
  if same { cover("empty"); } else { cover("step"); }
}
/// A loop body and its exit, say: steps that undo each other.
#[no_mangle] pub extern "C-unwind" fn h_step_symmetric() {
  let zero = fixed();
  let (p, q, r, s) = (any_perms("before"), any_perms("after"), any_perms("before"), any_perms("after"));
  let (mut d1, mut d2) = (zero.diff(zero), zero.diff(zero));
  d1.permissions = p.diff(q);
  d2.permissions = r.diff(s);
  let undoes = |x: bool, y: bool, z: bool, w: bool| ((x == y) & (z == w)) | ((x != y) & (z != w) & (y != w));
  let want = undoes(p.read, q.read, r.read, s.read) & undoes(p.write, q.write, r.write, s.write) & undoes(p.drop, q.drop, r.drop, s.drop);
  check(d1.is_symmetric_diff(&d2) == want, "steps are symmetric when each permission goes back or stays");
  if want { cover("symmetric"); } else { cover("not symmetric"); }
}
/// All places of a body at once.
#[no_mangle] pub extern "C-unwind" fn h_step_domain() {
  let n = param(0, 2) as usize;
  let place = |i: usize| Place { local: Local::from_usize(i), projection: List::empty() };
  let mut v = vec![];
  let (mut m1, mut m2) = (HashMap::default(), HashMap::default());
  for i in 0..n {
    let (mut a, mut b) = (fixed(), fixed());
    a.is_live = any_bool("is_live");
    b.is_live = any_bool("is_live");
    b.type_writeable = any_bool("type_writeable");
    a.path_moved = Some(MoveKey(any(32, "move") as u32));
    b.path_moved = a.path_moved;
    a.loan_drop_refined = key("loan").map(LoanKey);
    v.push(a); v.push(b);
    m1.insert(place(i), a);
    m2.insert(place(n - 1 - i), b);
  }
  let (d1, d2): (PermissionsDomain, PermissionsDomain) = (m1.into(), m2.into());
  let d = (&d1).diff(&d2);
  check(d.len() == n, "one step per place");
  for i in 0..n {
    match d.get(&place(i)) {
      Some(x) => check(data_ok(&v[2 * i], &v[2 * (n - 1 - i) + 1], x), "a place's step compares its own data"),
      None => fail("a place has no step"),
    }
  }
  cover("places");
}
