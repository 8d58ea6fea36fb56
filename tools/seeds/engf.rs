#![allow(dead_code, unused_imports)]
use hmmcl_sandbox::cl_pool_float::{Pool, PoolMath};
struct PM;
impl PoolMath for PM {}
fn mid(t: u32) -> f64 {
    (PM::tick_to_rp(t) + PM::tick_to_rp(t + 1)) / 2.0
}
fn pool(tick: u32, spacing: u32, c: f64, fee: f64) -> Pool<'static> {
    Pool::new("X", 9, "Y", 6, mid(tick), spacing, c, fee)
}
fn near(a: f64, b: f64, tol: f64, what: &str) {
    assert!((a - b).abs() <= tol, "{}: {} instead of {}", what, a, b);
}
fn refused(g: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).is_err()
}
