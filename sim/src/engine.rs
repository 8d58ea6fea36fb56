//! Adapters that drive the two real in-memory pool engines through their public API only.
use crate::dd::Dd;
use crate::rng::{mix, Rng};
use hmmcl_sandbox::cl_pool::{self, PoolMath as _};
use hmmcl_sandbox::cl_pool_float::{self, PoolMath as _};
use hmmcl_sandbox::decimal::{Add as _, Decimal, Div as _, Mul as _, Sub as _, COMPUTE_SCALE};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const USERS: [&str; 8] = ["alice", "alice2", "al", "Alice", "bob", "obb", "a", "alice0"];
pub const E12: u128 = 1_000_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Dec,
    Flt,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub kind: Kind,
    pub tick0: u64,
    pub spacing: u64,
    pub c_pct: u64,    // hmm exponent in 1/100
    pub fee_ppm: u64,  // fee rate in 1e-6
}

#[derive(Clone, Debug, Default)]
pub struct Obs {
    pub liq: Dd,
    pub rp: Dd,
    pub tick: u64,
    pub x: Dd,
    pub xa: Dd,
    pub xf: Dd,
    pub y: Dd,
    pub ya: Dd,
    pub yf: Dd,
    pub fg: [Dd; 4],
    pub npos: usize,
    pub ticks: Vec<u64>,
    pub ntick: usize,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct SwapOut {
    pub recv: Dd,
    pub send: Dd,
    pub adj: Dd,
    pub fee: Dd,
    pub avg: Dd,
    pub end: Dd,
}

/// A pool configuration nobody may open; `v` scales how far out of bounds it is.
#[derive(Clone, Copy)]
pub enum BadPool { Price(u64), Hmm(u64), HmmHigh(u64), Fee(u64) }

/// Names and decimals of the two tokens mean nothing to the curve: they vary with the configuration.
fn tokens(c: &Cfg) -> [(&'static str, u8); 2] {
    const N: [&str; 6] = ["X", "Y", "SOL", "USDC", "", "a rather long token name"];
    const D: [u8; 6] = [9, 6, 0, 18, 12, 255];
    let h = c.tick0.wrapping_mul(0x9e3779b97f4a7c15) ^ c.fee_ppm.wrapping_mul(0xd1342543de82ef95) ^ c.c_pct << 7;
    let f = |k: u32| (N[(h >> k) as usize % 6], D[(h >> (k + 8)) as usize % 6]);
    [f(20), f(40)]
}

pub trait Eng: Sized {
    fn create(c: &Cfg) -> Self;
    /// Opens a pool that must be refused. `None` where the engine states no such bound.
    fn create_bad(c: &Cfg, b: BadPool) -> Option<Self>;
    /// Request number `k` of those only this engine's number format can express, and whether it may be served.
    fn absurd(&mut self, k: u64, u: usize, lo: u64, hi: u64) -> (&'static str, bool);
    fn deposit(&mut self, u: usize, x: i128, y: i128, lo: u64, hi: u64);
    fn withdraw(&mut self, u: usize, liq: i128, lo: u64, hi: u64);
    fn swap_x(&mut self, dx: i128, oracle: u128) -> SwapOut;
    fn swap_y(&mut self, dy: i128, oracle: u128) -> SwapOut;
    fn obs(&self) -> Obs;
    /// Liquidity a deposit is credited with according to the engine's public formula, as raw 1e-12.
    fn quote_liq(c: &Cfg, o: &Obs, x: i128, y: i128, lo: u64, hi: u64) -> u128;
    fn tick_rp(t: u64) -> Dd;
    /// What an oracle reading is to this engine.
    fn oracle(o: u128) -> Dd;
    /// Sorted text of the whole internal state, for replay-identity comparison.
    fn digest(&self) -> String;
    /// Input amount (before fees) that moves the price from `rp` exactly to tick `t` under
    /// liquidity `liq`, by the engine's public formulas (used to aim at boundaries).
    fn reach(o: &Obs, down: bool, t: u64) -> u128;
}

/// Oracle readings that are the price of a tick itself in the engine's own number format (or the
/// next number above or below it): flag, tick << 2, 0 = equal, 1 = next above, 2 = next below.
pub const ORC_TICK: u128 = 1 << 62;
pub fn orc_at_tick(t: u64, k: u64) -> u128 {
    ORC_TICK | (t as u128) << 2 | k as u128
}
/// Exactly this floating-point number.
pub const ORC_F: u128 = 1 << 63;
pub fn orc_float(v: f64) -> u128 {
    ORC_F | v.to_bits() as u128
}
fn orc_parts(o: u128) -> (u64, u64) {
    (((o & (ORC_TICK - 1)) >> 2) as u64, (o & 3) as u64)
}
pub fn dec_oracle(o: u128) -> u128 {
    if o < ORC_TICK {
        return o;
    }
    if o >= ORC_F {
        return Dd::f(f64::from_bits((o & (ORC_F - 1)) as u64)).to_raw12_near();
    }
    let (t, k) = orc_parts(o);
    let p = DecEng::tick_rp(t).to_raw12_near();
    [p, p + 1, p - 1][k as usize % 3]
}
pub fn flt_oracle(o: u128) -> f64 {
    if o < ORC_TICK {
        return raw_f64(o as i128);
    }
    if o >= ORC_F {
        return f64::from_bits((o & (ORC_F - 1)) as u64);
    }
    let (t, k) = orc_parts(o);
    let p = FltEng::tick_rp(t).to_f64();
    [p, f64::from_bits(p.to_bits() + 1), f64::from_bits(p.to_bits() - 1)][k as usize % 3]
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(|| crate::harness::clocked(f))).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

fn dec(v: i128) -> Decimal {
    Decimal::new(v.unsigned_abs(), COMPUTE_SCALE, v < 0)
}
fn udec(v: u128) -> Decimal {
    Decimal::new(v, COMPUTE_SCALE, false)
}
pub fn d2dd(d: Decimal) -> Dd {
    let s = Dd::f(10f64.powi(d.scale as i32));
    let r = Dd::from_u128(d.value) / s;
    if d.negative {
        -r
    } else {
        r
    }
}

pub struct DecEng(cl_pool::Pool<'static>, u64);
struct PM;
impl cl_pool::PoolMath for PM {}

/// Requests name prices, not ticks: any price that stands for `t` on the spacing grid. Which one
/// depends on the request alone. Returns a tick of the same grid cell and a permille of its interval.
fn pick_price(t: u64, sp: u64, salt: u64) -> (u64, u64) {
    let mut r = Rng::new(salt ^ mix(t));
    let k = match r.below(4) {
        0 => 0,
        1 => sp - 1,
        _ => r.below(sp),
    };
    let f = match r.below(4) {
        0 => 2,
        1 => 998,
        2 => 500,
        _ => r.range(2, 998),
    };
    (t + k, f)
}
/// The name of a user, each time in another place of the memory: requests come out of buffers.
fn name(u: usize) -> &'static str {
    thread_local!(static NTH: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
    static COPIES: std::sync::OnceLock<Vec<[&'static str; 8]>> = std::sync::OnceLock::new();
    let c = COPIES.get_or_init(|| (0..7).map(|_| USERS.map(|n| &*Box::leak(n.to_string().into_boxed_str()))).collect());
    let n = NTH.with(|n| {
        n.set(mix(n.get() + 1));
        n.get()
    });
    c[(n % 7) as usize][u]
}
fn salt(u: usize, a: i128, b: i128) -> u64 {
    mix(u as u64 ^ mix(a as u64 ^ mix(b as u64)))
}
fn dec_price(t: u64, sp: u64, salt: u64) -> Decimal {
    let (t, f) = pick_price(t, sp, salt);
    let a = PM::tick_to_rp(t as u128);
    let b = PM::tick_to_rp(t as u128 + 1);
    a.add(b.sub(a).unwrap().mul(Decimal::new(f as u128, 3, false).to_compute_scale())).unwrap()
}

/// Hash maps print in arbitrary order: compare the multiset of printed tokens.
fn norm_digest(s: String) -> String {
    let mut t: Vec<&str> = s
        .split(|c: char| !(c.is_alphanumeric() || c == '.' || c == '-'))
        .filter(|x| !x.is_empty())
        .collect();
    t.sort_unstable();
    t.join(" ")
}

impl Eng for DecEng {
    fn absurd(&mut self, k: u64, u: usize, lo: u64, hi: u64) -> (&'static str, bool) {
        let (a, b) = (dec_price(lo, self.1, 0), dec_price(hi, self.1, 0));
        let max = Decimal::new((u64::MAX >> (k / 12 % 8)) as u128 * 1_000_000_000_000, 12, false);
        let (neg, one, zero, u) = (Decimal::new(max.value, 12, true), dec(1_000_000), dec(0), name(u));
        match k % 12 {
            0 => { self.0.deposit(u, max, max, a, b); ("deposit of the largest number", true) }
            1 => { self.0.deposit(u, max, one, a, b); ("deposit of the largest number of X", true) }
            2 => { self.0.deposit(u, one, max, a, b); ("deposit of the largest number of Y", true) }
            3 => { self.0.deposit(u, neg, neg, a, b); ("deposit of the smallest number", false) }
            4 => { self.0.withdraw(u, max, a, b); ("withdrawal of the largest number", false) }
            5 => { self.0.withdraw(u, neg, a, b); ("withdrawal of the smallest number", false) }
            6 => { self.0.execute_swap_from_x(max, zero); ("sale of the largest number of X", true) }
            7 => { self.0.execute_swap_from_y(max, zero); ("sale of the largest number of Y", true) }
            8 => { self.0.execute_swap_from_x(neg, zero); ("sale of the smallest number of X", false) }
            9 => { self.0.execute_swap_from_y(neg, zero); ("sale of the smallest number of Y", false) }
            10 => { self.0.deposit(u, one, one, a, max); ("deposit up to the largest price", true) }
            _ => { self.0.deposit(u, one, one, neg, b); ("deposit from the smallest price", false) }
        }
    }
    fn create_bad(c: &Cfg, b: BadPool) -> Option<Self> {
        let one = |n: u64, s: u8, neg: bool| Decimal::new(n as u128, s, neg).to_compute_scale();
        let [(x, xd), (y, yd)] = tokens(c);
        let (mut rp, mut h, mut f) = (dec_price(c.tick0, 1, 1), one(c.c_pct, 2, false), one(c.fee_ppm, 6, false));
        match b {
            BadPool::Price(v) => rp = one(v, 12, true),
            BadPool::Hmm(v) => h = one(v, 12, true),
            BadPool::HmmHigh(v) => h = one(2_000_000_000_000 + v, 12, false),
            BadPool::Fee(v) => f = one(v, 12, true),
        }
        Some(DecEng(cl_pool::Pool::new(x, xd, y, yd, rp, c.spacing as u128, h, f), c.spacing))
    }
    fn create(c: &Cfg) -> Self {
        let [(x, xd), (y, yd)] = tokens(c);
        DecEng(cl_pool::Pool::new(
            x,
            xd,
            y,
            yd,
            dec_price(c.tick0, 1, c.tick0 ^ c.fee_ppm << 20),
            c.spacing as u128,
            Decimal::new(c.c_pct as u128, 2, false).to_compute_scale(),
            Decimal::new(c.fee_ppm as u128, 6, false).to_compute_scale(),
        ), c.spacing)
    }
    fn deposit(&mut self, u: usize, x: i128, y: i128, lo: u64, hi: u64) {
        let n = salt(u, x, y) >> 1;
        self.0.deposit(name(u), dec(x), dec(y), dec_price(lo, self.1, n), dec_price(hi, self.1, n + 1))
    }
    fn withdraw(&mut self, u: usize, liq: i128, lo: u64, hi: u64) {
        let n = salt(u, liq, 7) >> 1;
        self.0.withdraw(name(u), dec(liq), dec_price(lo, self.1, n), dec_price(hi, self.1, n + 1))
    }
    fn swap_x(&mut self, dx: i128, o: u128) -> SwapOut {
        let r = self.0.execute_swap_from_x(dec(dx), udec(dec_oracle(o)));
        SwapOut {
            recv: d2dd(r.recv_amount()),
            send: d2dd(r.send_amount()),
            adj: d2dd(r.send_hmm_adj()),
            fee: d2dd(r.recv_fee()),
            avg: d2dd(r.avg_price()),
            end: d2dd(r.end_price()),
        }
    }
    fn swap_y(&mut self, dy: i128, o: u128) -> SwapOut {
        let r = self.0.execute_swap_from_y(dec(dy), udec(dec_oracle(o)));
        SwapOut {
            recv: d2dd(r.recv_amount()),
            send: d2dd(r.send_amount()),
            adj: d2dd(r.send_hmm_adj()),
            fee: d2dd(r.recv_fee()),
            avg: d2dd(r.avg_price()),
            end: d2dd(r.end_price()),
        }
    }
    fn obs(&self) -> Obs {
        let p = &self.0;
        let (x, xa, xf) = p.x_info();
        let (y, ya, yf) = p.y_info();
        let f = p.glbl_fees();
        Obs {
            liq: d2dd(p.glbl_liq()),
            rp: d2dd(p.glbl_rp()),
            tick: p.glbl_tick() as u64,
            x: d2dd(x),
            xa: d2dd(xa),
            xf: d2dd(xf),
            y: d2dd(y),
            ya: d2dd(ya),
            yf: d2dd(yf),
            fg: [d2dd(f.0), d2dd(f.1), d2dd(f.2), d2dd(f.3)],
            npos: p.position_count(),
            ntick: p.tick_count(),
            ticks: p.tick_keys_cloned(false).iter().map(|&t| t as u64).collect(),
        }
    }
    fn quote_liq(_c: &Cfg, o: &Obs, x: i128, y: i128, lo: u64, hi: u64) -> u128 {
        let rp = Decimal::new(o.rp.to_raw12_near(), COMPUTE_SCALE, false);
        let l = PM::liq_from_x_y_rp_rng(dec(x), dec(y), rp, PM::tick_to_rp(lo as u128), PM::tick_to_rp(hi as u128));
        let l = if PM::FLOOR_LIQ { l.div(Decimal::one()) } else { l };
        l.to_compute_scale().value
    }
    fn reach(o: &Obs, down: bool, t: u64) -> u128 {
        let rp = udec(o.rp.to_raw12_near());
        let l = udec(o.liq.to_raw12_near());
        let g = PM::tick_to_rp(t as u128);
        let r = if down { PM::dx_from_l_drp(l, rp, g) } else { PM::dy_from_l_drp(l, rp, g) };
        if r.negative { 0 } else { r.value }
    }
    fn oracle(o: u128) -> Dd {
        Dd::raw12(dec_oracle(o), false)
    }
    fn tick_rp(t: u64) -> Dd {
        d2dd(PM::tick_to_rp(t as u128))
    }
    fn digest(&self) -> String {
        norm_digest(format!("{:?}", self.0))
    }
}

pub struct FltEng(cl_pool_float::Pool<'static>, u64);
struct FM;
impl cl_pool_float::PoolMath for FM {}

pub fn raw_f64(v: i128) -> f64 {
    let e = E12 as i128;
    (v / e) as f64 + (v % e) as f64 / 1e12
}
fn flt_price(t: u64, sp: u64, salt: u64) -> f64 {
    let (t, f) = pick_price(t, sp, salt);
    let a = FM::tick_to_rp(t as u32);
    let b = FM::tick_to_rp(t as u32 + 1);
    a + (b - a) * f as f64 / 1000.0
}

impl Eng for FltEng {
    fn absurd(&mut self, k: u64, u: usize, lo: u64, hi: u64) -> (&'static str, bool) {
        let (a, b) = (flt_price(lo, self.1, 0), flt_price(hi, self.1, 0));
        let (nan, inf, u) = (f64::NAN, f64::INFINITY, name(u));
        let name = match k % 12 {
            0 => { self.0.deposit(u, nan, 1e6, a, b); "deposit of NaN X" }
            1 => { self.0.deposit(u, 1e6, nan, a, b); "deposit of NaN Y" }
            2 => { self.0.deposit(u, nan, nan, a, b); "deposit of NaN" }
            3 => { self.0.withdraw(u, 1.0, a, nan); "withdrawal to a NaN price" }
            4 => { self.0.withdraw(u, nan, a, b); "withdrawal of NaN" }
            5 => { self.0.withdraw(u, inf, a, b); "withdrawal of infinity" }
            6 => { self.0.execute_swap_from_x(nan, 0.0); "swap of NaN X" }
            7 => { self.0.execute_swap_from_y(nan, 0.0); "swap of NaN Y" }
            8 => { self.0.deposit(u, 1e6, 1e6, nan, b); "deposit from a NaN price" }
            9 => { self.0.deposit(u, 1e6, 1e6, a, nan); "deposit to a NaN price" }
            10 => { self.0.withdraw(u, 1.0, nan, b); "withdrawal from a NaN price" }
            _ => { self.0.deposit(u, inf, inf, a, b); "deposit of infinity" }
        };
        (name, false)
    }
    fn create_bad(c: &Cfg, b: BadPool) -> Option<Self> {
        let one = |n: u64| n as f64 * 1e-12;
        let [(x, xd), (y, yd)] = tokens(c);
        let (mut rp, mut h, mut f) = (flt_price(c.tick0, 1, 1), c.c_pct as f64 / 100.0, c.fee_ppm as f64 / 1e6);
        match b {
            BadPool::Price(v) => rp = -one(v),
            BadPool::Hmm(v) => h = -one(v),
            BadPool::HmmHigh(v) => h = 2.0 + one(v).max(1e-15),
            BadPool::Fee(v) => f = -one(v),
        }
        Some(FltEng(cl_pool_float::Pool::new(x, xd, y, yd, rp, c.spacing as u32, h, f), c.spacing))
    }
    fn create(c: &Cfg) -> Self {
        let [(x, xd), (y, yd)] = tokens(c);
        FltEng(cl_pool_float::Pool::new(
            x,
            xd,
            y,
            yd,
            flt_price(c.tick0, 1, c.tick0 ^ c.fee_ppm << 20),
            c.spacing as u32,
            c.c_pct as f64 / 100.0,
            c.fee_ppm as f64 / 1e6,
        ), c.spacing)
    }
    fn deposit(&mut self, u: usize, x: i128, y: i128, lo: u64, hi: u64) {
        let n = salt(u, x, y) >> 1;
        self.0.deposit(name(u), raw_f64(x), raw_f64(y), flt_price(lo, self.1, n), flt_price(hi, self.1, n + 1))
    }
    fn withdraw(&mut self, u: usize, liq: i128, lo: u64, hi: u64) {
        let n = salt(u, liq, 7) >> 1;
        self.0.withdraw(name(u), raw_f64(liq), flt_price(lo, self.1, n), flt_price(hi, self.1, n + 1))
    }
    fn swap_x(&mut self, dx: i128, o: u128) -> SwapOut {
        let o = if o == 0 { f64::INFINITY } else { flt_oracle(o) };
        let r = self.0.execute_swap_from_x(raw_f64(dx), o);
        SwapOut {
            recv: Dd::f(r.recv_amount()),
            send: Dd::f(r.send_amount()),
            adj: Dd::f(r.send_hmm_adj()),
            fee: Dd::f(r.recv_fee()),
            avg: Dd::f(r.avg_price()),
            end: Dd::f(r.end_price()),
        }
    }
    fn swap_y(&mut self, dy: i128, o: u128) -> SwapOut {
        // the float engine has no "no oracle" value: a price on the far side never adjusts
        let o = flt_oracle(o);
        let r = self.0.execute_swap_from_y(raw_f64(dy), o);
        SwapOut {
            recv: Dd::f(r.recv_amount()),
            send: Dd::f(r.send_amount()),
            adj: Dd::f(r.send_hmm_adj()),
            fee: Dd::f(r.recv_fee()),
            avg: Dd::f(r.avg_price()),
            end: Dd::f(r.end_price()),
        }
    }
    fn obs(&self) -> Obs {
        let p = &self.0;
        let (x, xa, xf) = p.x_info();
        let (y, ya, yf) = p.y_info();
        let f = p.glbl_fees();
        Obs {
            liq: Dd::f(p.glbl_liq()),
            rp: Dd::f(p.glbl_rp()),
            tick: p.glbl_tick() as u64,
            x: Dd::f(x),
            xa: Dd::f(xa),
            xf: Dd::f(xf),
            y: Dd::f(y),
            ya: Dd::f(ya),
            yf: Dd::f(yf),
            fg: [Dd::f(f.0), Dd::f(f.1), Dd::f(f.2), Dd::f(f.3)],
            npos: p.position_count(),
            ntick: p.tick_count(),
            ticks: p.tick_keys_cloned(false).iter().map(|&t| t as u64).collect(),
        }
    }
    fn quote_liq(_c: &Cfg, o: &Obs, x: i128, y: i128, lo: u64, hi: u64) -> u128 {
        let l = FM::liq_from_x_y_rp_rng(raw_f64(x), raw_f64(y), o.rp.to_f64(), FM::tick_to_rp(lo as u32), FM::tick_to_rp(hi as u32));
        let l = if FM::FLOOR_LIQ { l.floor() } else { l };
        if l <= 0.0 {
            0
        } else {
            (l as u128) * E12
        }
    }
    fn reach(o: &Obs, down: bool, t: u64) -> u128 {
        let (rp, l, g) = (o.rp.to_f64(), o.liq.to_f64(), FM::tick_to_rp(t as u32));
        let r = if down { FM::dx_from_l_drp(l, rp, g) } else { FM::dy_from_l_drp(l, rp, g) };
        if r > 0.0 { (r * 1e12) as u128 } else { 0 }
    }
    fn oracle(o: u128) -> Dd {
        Dd::f(flt_oracle(o))
    }
    fn tick_rp(t: u64) -> Dd {
        Dd::f(FM::tick_to_rp(t as u32))
    }
    fn digest(&self) -> String {
        norm_digest(format!("{:?}", self.0))
    }
}
