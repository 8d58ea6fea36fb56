#![allow(dead_code, unused_imports)]
use hmmcl_sandbox::cl_pool::{Pool, PoolMath};
use hmmcl_sandbox::decimal::{Add, Compare, Decimal, Div, Mul, Sub, COMPUTE_SCALE};
struct PM;
impl PoolMath for PM {}
/// raw units of 1e-12
fn raw(v: i128) -> Decimal {
    Decimal::new(v.unsigned_abs(), COMPUTE_SCALE, v < 0)
}
fn int(v: i128) -> Decimal {
    raw(v * 1_000_000_000_000)
}
fn mid(t: u128) -> Decimal {
    let a = PM::tick_to_rp(t);
    let b = PM::tick_to_rp(t + 1);
    a.add(b.sub(a).unwrap().div(Decimal::two())).unwrap()
}
fn pool(tick: u128, spacing: u128, c_pct: u128, fee_ppm: u128) -> Pool<'static> {
    Pool::new(
        "X", 9, "Y", 6, mid(tick), spacing,
        Decimal::new(c_pct, 2, false).to_compute_scale(),
        Decimal::new(fee_ppm, 6, false).to_compute_scale(),
    )
}
fn f(d: Decimal) -> f64 {
    let v = d.value as f64 / 10f64.powi(d.scale as i32);
    if d.negative { -v } else { v }
}
fn v(d: Decimal) -> i128 {
    let w = d.to_compute_scale();
    if w.negative { -(w.value as i128) } else { w.value as i128 }
}
fn near(a: f64, b: f64, tol: f64, what: &str) {
    assert!((a - b).abs() <= tol, "{}: {} instead of {}", what, a, b);
}
fn refused(g: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).is_err()
}
