//! Simulation of the in-memory pool engines as a service: liquidity providers, traders, an oracle
//! node and a server with a write-ahead journal, over a lossy network, in virtual time. The
//! engines are the real code; everything around them is simulated.
use crate::dd::Dd;
use crate::engine::*;
use crate::harness::{Report, Sim, Stats, Violation};
use crate::model::*;
use crate::rng::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BinaryHeap};
use std::cmp::Reverse;
use std::rc::Rc;

// ------------------------------------------------------------------ trace
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Amt {
    Raw(u128),
    /// The amount that ends exactly on boundary `t`, plus `eps` quanta.
    ToTick { t: u64, eps: i64 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Dep { u: usize, x: u128, y: u128, lo: u64, hi: u64 },
    Wd { u: usize, lo: u64, hi: u64, ppm: u64 },
    /// A withdrawal of exactly this liquidity (in quanta), or of all if the position holds less.
    WdRaw { u: usize, lo: u64, hi: u64, raw: u128 },
    Swap { down: bool, amt: Amt, orc: u128 },
    Bad { kind: u8, u: usize, lo: u64, hi: u64, v: u128 },
    /// The server stops and restarts from its journal; the last `lose` records were not durable.
    Crash { lose: usize },
    /// A fork of the service in which one trader goes in and comes back.
    Trip { down: bool, amt: Amt, orc: u128, cuts: Vec<u64> },
    /// A fork in which an order is split in two.
    Split { down: bool, amt: Amt, orc: u128, ppm: u64 },
    /// A fork in which a provider adds and immediately removes liquidity.
    InOut { u: usize, x: u128, y: u128, lo: u64, hi: u64 },
    /// A fork in which two concurrent requests arrive in both orders.
    Commute { a: Box<Ev>, b: Box<Ev> },
    /// Faults have stopped: everybody leaves, in a shuffled order.
    Exit { order: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    pub t: u64,
    pub via: String,
    pub ev: Ev,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trace {
    pub float: bool,
    pub dual: bool,
    pub tick0: u64,
    pub spacing: u64,
    pub c_pct: u64,
    pub fee_ppm: u64,
    pub steps: Vec<Step>,
}
impl Trace {
    fn cfg(&self) -> Cfg {
        Cfg {
            kind: if self.float { Kind::Flt } else { Kind::Dec },
            tick0: self.tick0,
            spacing: self.spacing,
            c_pct: self.c_pct,
            fee_ppm: self.fee_ppm,
        }
    }
}

// ------------------------------------------------------------------ executor
#[derive(Clone, Debug)]
enum J {
    D(usize, i128, i128, u64, u64),
    W(usize, i128, u64, u64),
    S(bool, i128, u128),
}
fn apply<E: Eng>(e: &mut E, j: &J) -> Result<Option<SwapOut>, String> {
    crate::harness::beat();
    guarded(|| match *j {
        J::D(u, x, y, lo, hi) => {
            e.deposit(u, x, y, lo, hi);
            None
        }
        J::W(u, l, lo, hi) => {
            e.withdraw(u, l, lo, hi);
            None
        }
        J::S(d, a, o) => Some(if d { e.swap_x(a, o) } else { e.swap_y(a, o) }),
    })
}

struct Rec {
    j: J,
    before: Model,
    obs: Obs,
    dust: (f64, f64),
    pot_dust: [f64; 4],
}

struct World<E: Eng> {
    cfg: Cfg,
    e: E,
    m: Model,
    obs: Obs,
    recs: Vec<Rec>,
    dust: (f64, f64),
    pot_dust: [f64; 4],
    prop: String,
    at: usize,
    viol: Option<Violation>,
    foreign: BTreeMap<String, u64>,
    st: Stats,
    cache: Rc<RefCell<BTreeMap<u64, Dd>>>,
    log: u64,
    max_price: f64,
}

/// The float engine takes liquidity out in sixteenths of a unit, unless it is all there is.
const F_UNIT: u128 = E12 / 16;
const POT: [&str; 4] = ["X fee", "Y fee", "X adjustment", "Y adjustment"];
fn pots(o: &Obs) -> [Dd; 4] {
    [o.xf, o.yf, o.xa, o.ya]
}
fn same_obs(a: &Obs, b: &Obs) -> bool {
    a.liq == b.liq
        && a.rp == b.rp
        && a.tick == b.tick
        && a.x == b.x
        && a.y == b.y
        && pots(a) == pots(b)
        && a.fg == b.fg
        && a.npos == b.npos
        && a.ticks == b.ticks
}

impl<E: Eng> World<E> {
    fn new(cfg: &Cfg, prop: &str) -> Self {
        let e = crate::harness::clocked(|| E::create(cfg));
        let obs = e.obs();
        let ulp = if cfg.kind == Kind::Dec { 1e-12 } else { 2.3e-16 };
        let m = Model::new(cfg, obs.rp, obs.tick, ulp);
        let mut w = World {
            cfg: cfg.clone(),
            e,
            m,
            obs,
            recs: vec![],
            dust: (0.0, 0.0),
            pot_dust: [0.0; 4],
            prop: prop.to_string(),
            at: 0,
            viol: None,
            foreign: BTreeMap::new(),
            st: Stats::default(),
            cache: Rc::new(RefCell::new(BTreeMap::new())),
            log: 0,
            max_price: 0.0,
        };
        w.max_price = w.obs.rp.to_f64();
        // a fresh pool sits exactly on the (spaced) tick it was created at
        let want = cfg.tick0 / cfg.spacing * cfg.spacing;
        if w.obs.tick != want || w.obs.rp != w.tt(want) {
            let d = format!("new pool at tick {} root price {}; asked for tick {} spacing {}", w.obs.tick, w.obs.rp, cfg.tick0, cfg.spacing);
            w.bad("E11", "fresh pool position", d);
        }
        w
    }
    fn dec(&self) -> bool {
        self.cfg.kind == Kind::Dec
    }
    /// Root price of a tick, as the engine places it; checked against 1.0001^(t/2).
    fn tt(&self, t: u64) -> Dd {
        if let Some(v) = self.cache.borrow().get(&t) {
            return *v;
        }
        let v = guarded(|| E::tick_rp(t)).unwrap_or(exact_tick(t));
        self.cache.borrow_mut().insert(t, v);
        v
    }
    fn check_tick(&mut self, t: u64) {
        let v = self.tt(t);
        let x = exact_tick(t);
        let rel = ((v - x) / x).to_f64().abs();
        let tol = (t as f64 + 4.0) * 3e-12;
        self.st.hit("chk.tick price");
        self.st.max("tick price", rel / tol);
        if !(rel <= tol) {
            self.bad("E11", "tick price", format!("tick {} sits at root price {} instead of {}", t, v, x));
        }
        if !(self.tt(t + 1) > v) {
            self.bad("E11", "tick order", format!("tick {} is not below tick {}", t, t + 1));
        }
    }
    fn bad(&mut self, tag: &str, class: &str, detail: String) {
        if tag == self.prop {
            if self.viol.is_none() {
                let kind = if self.dec() { "fixed-point" } else { "float" };
                self.viol = Some(Violation {
                    tag: tag.into(),
                    class: format!("{}: {}", kind, class),
                    detail: format!("[{}] {}: {}", kind, class, detail),
                    at_event: self.at,
                });
            }
        } else {
            if self.prop == "*" || std::env::var("SIM_FOREIGN").is_ok() {
                eprintln!("{}|{:?} {}|ev{} {}", tag, self.cfg.kind, class, self.at, detail);
            }
            *self.foreign.entry(tag.to_string()).or_insert(0) += 1;
        }
    }
    /// |got - want| <= tol, with the ratio recorded.
    fn near(&mut self, tag: &str, class: &str, got: Dd, want: Dd, tol: f64, ctx: &dyn Fn() -> String) -> bool {
        let d = (got - want).to_f64().abs();
        self.st.hit(&format!("chk.{}", class));
        if tol > 0.0 {
            self.st.max(class, d / tol);
        }
        if !(d <= tol) {
            let c = ctx();
            self.bad(tag, class, format!("{} instead of {} (off by {:.3e}, tolerance {:.3e}) {}", got, want, (got - want).to_f64(), tol, c));
            return false;
        }
        true
    }
    fn rebuild(&self) -> E {
        let mut e = crate::harness::clocked(|| E::create(&self.cfg));
        for r in &self.recs {
            let _ = apply(&mut e, &r.j);
        }
        e
    }
    fn fork(&self) -> (E, Model) {
        (self.rebuild(), self.m.clone())
    }
    fn push(&mut self, j: J) {
        self.recs.push(Rec {
            j,
            before: self.m.clone(),
            obs: self.obs.clone(),
            dust: self.dust,
            pot_dust: self.pot_dust,
        });
    }
    /// The request was refused: the service discards the transaction and recovers from its journal.
    fn recover(&mut self) {
        self.e = self.rebuild();
        let o = self.e.obs();
        if !same_obs(&o, &self.obs) {
            let d = format!("journal replay gives {:?} instead of {:?}", o, self.obs);
            self.bad("E10", "journal replay", d);
            self.obs = o;
            self.m.rp = self.obs.rp;
            self.m.tick = self.obs.tick;
        }
    }
    fn resolve(&self, down: bool, a: &Amt) -> u128 {
        match a {
            Amt::Raw(v) => (*v).max(1),
            Amt::ToTick { t, eps } => {
                let base = if self.obs.liq.is_zero() {
                    Dd::from_u128(0)
                } else {
                    let next = if down {
                        self.m.ticks().into_iter().rev().find(|x| *x <= self.obs.tick)
                    } else {
                        self.m.ticks().into_iter().find(|x| *x > self.obs.tick)
                    };
                    if next == Some(*t) {
                        let net = guarded(|| E::reach(&self.obs, down, *t)).unwrap_or(0);
                        Dd::from_u128(net) / (Dd::ONE - self.m.fee_rate())
                    } else {
                        // several segments away: what the model says it takes
                        let tf = |t: u64| self.tt(t);
                        let s = self.m.swap(down, Dd::f(1e15), Dd::ZERO, &TickTable(&tf));
                        let goal = self.tt(*t);
                        let mut sum = Dd::ZERO;
                        for g in &s.segs {
                            if !g.crossed || (down && g.rp1 < goal) || (!down && g.rp1 > goal) {
                                break;
                            }
                            sum += g.net + g.fee;
                        }
                        sum * Dd::f(1e12)
                    }
                };
                let v = base.to_f64();
                let raw = if v < 1e30 { (base + Dd::f(0.5)).to_raw12() / E12 } else { 0 };
                ((raw as i128 + *eps as i128).max(1)) as u128
            }
        }
    }
    /// What a request to withdraw `raw` of `held` takes out.
    fn drawn(&self, raw: u128, held: u128) -> u128 {
        if self.dec() {
            return raw;
        }
        let (f, h) = (raw_f64(raw as i128), raw_f64(held as i128));
        if f < h {
            (f * 16.0).floor() as u128 * F_UNIT
        } else {
            held
        }
    }
    fn wd_raw(&self, u: usize, lo: u64, hi: u64, ppm: u64) -> Option<i128> {
        let p = self.m.pos.get(&(u, lo, hi))?;
        let raw = if ppm >= 1_000_000 { p.raw } else { p.raw / 1_000_000 * ppm as u128 + p.raw % 1_000_000 * ppm as u128 / 1_000_000 };
        Some(raw as i128)
    }

    // -------------------------------------------------------------- events
    fn exec(&mut self, at: usize, ev: &Ev) {
        self.at = at;
        self.st.events += 1;
        match ev {
            Ev::Dep { u, x, y, lo, hi } => {
                self.st.hit("op.deposit");
                self.deposit(*u, *x as i128, *y as i128, *lo, *hi);
            }
            Ev::Wd { u, lo, hi, ppm } => {
                self.st.hit("op.withdraw");
                if let Some(raw) = self.wd_raw(*u, *lo, *hi, *ppm) {
                    self.withdraw(*u, raw, *lo, *hi, false);
                }
            }
            Ev::WdRaw { u, lo, hi, raw } => {
                self.st.hit("op.withdraw");
                if let Some(p) = self.m.pos.get(&(*u, *lo, *hi)) {
                    let held = p.raw;
                    let raw = *raw;
                    let left = held - self.drawn(raw.min(held), held);
                    if left > 0 && left < E12 {
                        self.st.hit("probe.position drawn down to dust");
                    }
                    self.withdraw(*u, raw.min(held) as i128, *lo, *hi, false);
                }
            }
            Ev::Swap { down, amt, orc } => {
                self.st.hit(if *down { "op.swap X" } else { "op.swap Y" });
                let a = self.resolve(*down, amt);
                self.swap(*down, a, *orc);
            }
            Ev::Bad { kind, u, lo, hi, v } => self.illegal(*kind, *u, *lo, *hi, *v),
            Ev::Crash { lose } => self.crash(*lose),
            Ev::Trip { down, amt, orc, cuts } => self.trip(*down, amt, *orc, cuts),
            Ev::Split { down, amt, orc, ppm } => self.split(*down, amt, *orc, *ppm),
            Ev::InOut { u, x, y, lo, hi } => self.inout(*u, *x as i128, *y as i128, *lo, *hi),
            Ev::Commute { a, b } => self.commute(a, b),
            Ev::Exit { order } => self.exit(*order),
        }
        let s = self.state_hash();
        self.st.states.insert(s);
        self.log = mix(self.log ^ hash_str(&format!("{:?}", self.obs)) ^ hash_str(&format!("{:?}", self.viol)));
    }

    fn state_hash(&self) -> u64 {
        let ts = self.m.ticks();
        let rank = ts.iter().filter(|t| **t <= self.obs.tick).count();
        let inr = self.m.pos.keys().filter(|k| self.m.in_range(k, self.obs.tick)).count();
        let on = self.obs.rp == self.tt(self.obs.tick);
        let owed = self.m.pos.values().filter(|p| p.owed.iter().any(|d| !d.is_zero())).count();
        hash_str(&format!(
            "{:?}{} {} {} {} {} {} {} {} {} {}",
            self.cfg.kind,
            self.cfg.spacing,
            self.cfg.c_pct,
            self.cfg.fee_ppm > 0,
            self.m.pos.len(),
            ts.len(),
            rank,
            inr,
            on,
            owed,
            self.obs.liq.is_zero()
        ))
    }

    /// Rounding noise of closed-form amounts of liquidity `l` over a range.
    fn amt_noise(&self, l: f64, x: f64, y: f64, pa: f64, pb: f64) -> (f64, f64) {
        if self.dec() {
            let p = self.obs.rp.to_f64().max(pa).min(pb);
            (4e-12 + x * 4e-12 + 2.0 * x * 1e-12 / (p * pb), 4e-12 + y * 4e-12)
        } else {
            (1e-12 + x * 4e-12 + 1e-15 * l / pa, 1e-12 + y * 4e-12 + 1e-15 * l * pb)
        }
    }

    fn deposit(&mut self, u: usize, x: i128, y: i128, lo: u64, hi: u64) -> bool {
        self.check_tick(lo);
        self.check_tick(hi);
        let pre = self.obs.clone();
        let cfg = self.cfg.clone();
        let q = guarded(|| E::quote_liq(&cfg, &pre, x, y, lo, hi));
        let j = J::D(u, x, y, lo, hi);
        let key = (u, lo, hi);
        match apply(&mut self.e, &j) {
            Err(msg) => {
                self.bad("E12", "deposit refused", format!("u{} x {} y {} over [{}, {}] refused: {}", u, rawfmt(x), rawfmt(y), lo, hi, msg));
                self.st.hit("op.deposit refused");
                self.recover();
                false
            }
            Ok(_) => {
                self.push(j);
                let q = match q {
                    Ok(q) => q,
                    Err(m) => {
                        self.bad("E02", "liquidity quote", format!("liquidity formula refuses what a deposit accepts: {}", m));
                        0
                    }
                };
                let post = self.e.obs();
                let l = Dd::raw12(q, false);
                let (pa, pb) = (self.tt(lo), self.tt(hi));
                let (wx, wy) = Model::amounts(l, pre.rp, pa, pb);
                let (tx, ty) = self.amt_noise(l.to_f64(), wx.to_f64(), wy.to_f64(), pa.to_f64(), pb.to_f64());
                let (gx, gy) = (post.x - pre.x, post.y - pre.y);
                let ctx = || format!("deposit by u{} of x {} y {} over [{}, {}] at root price {}", u, rawfmt(x), rawfmt(y), lo, hi, pre.rp);
                let rx = self.res_noise(&pre.x, &post.x);
                let ry = self.res_noise(&pre.y, &post.y);
                self.near("E02", "deposit X amount", gx, wx, tx + rx, &ctx);
                self.near("E02", "deposit Y amount", gy, wy, ty + ry, &ctx);
                let (ox, oy) = (Dd::raw12(x as u128, false), Dd::raw12(y as u128, false));
                // half of the last digit: the reference's own representation of the reserves
                let over = if self.dec() { (0.5e-12, 0.5e-12) } else { (tx + rx, ty + ry) };
                if gx > ox + Dd::f(over.0) || gy > oy + Dd::f(over.1) {
                    self.bad("E02", "deposit takes more than offered", format!("took {} and {}; {}", gx, gy, ctx()));
                }
                // as much liquidity as the offer supports: one more unit would not be covered
                let unit = if self.dec() {
                    // the engine rounds prices and products to 12 decimals on the way
                    let p = pre.rp.max(pa).min(pb);
                    let lf = l.to_f64();
                    let up = (Dd::ONE / p - Dd::ONE / pb).to_f64();
                    let dn = (p - pa).to_f64();
                    let _ = (up, dn);
                    (8e-12 * (1.0 + ox.to_f64()) + lf * 0.0, 8e-12 * (1.0 + oy.to_f64()))
                } else {
                    let (ux, uy) = Model::amounts(Dd::ONE, pre.rp, pa, pb);
                    (ux.to_f64() + ox.to_f64() * 1e-9 + tx, uy.to_f64() + oy.to_f64() * 1e-9 + ty)
                };
                let short_x = wx.is_zero() || (ox - gx).to_f64() > unit.0 + tx + self.liq_noise(l, pre.rp, pa, pb).0;
                let short_y = wy.is_zero() || (oy - gy).to_f64() > unit.1 + ty + self.liq_noise(l, pre.rp, pa, pb).1;
                self.st.hit("chk.deposit uses offer");
                if short_x && short_y && !(self.dec() && q == 0) && !(wx.is_zero() && wy.is_zero()) {
                    self.bad("E02", "deposit credits less than the offer supports", format!("used {} and {} for liquidity {}; {}", gx, gy, l, ctx()));
                }
                let held = self.m.pos.get(&key).map_or(0, |p| p.raw);
                if held > 0 || q > 0 {
                    let p = self.m.pos.entry(key).or_insert(Pos { raw: 0, owed: [Dd::ZERO; 4], slack: [Dd::ZERO; 4] });
                    p.raw += q;
                    self.payout(&key, held, &pre, &post, "deposit");
                } else {
                    self.st.hit("probe.empty deposit");
                }
                self.settle_lp(&pre, post, gx - wx, gy - wy, tx + rx, ty + ry);
                true
            }
        }
    }
    /// How much of each token the engine's own rounding of the liquidity formula can leave unused.
    fn liq_noise(&self, l: Dd, rp: Dd, pa: Dd, pb: Dd) -> (f64, f64) {
        if !self.dec() {
            return (0.0, 0.0);
        }
        let p = rp.max(pa).min(pb);
        let (pf, bf) = (p.to_f64(), pb.to_f64());
        // x * pa (1e-12) * pb (1e-12) / (pb - pa) (1e-12)
        let _ = l;
        let up = ((bf - pf) / (pf * bf)).max(0.0);
        let dn = (pf - pa.to_f64()).max(0.0);
        let dl = if up > 0.0 { 2e-12 * (1.0 + bf) / (bf - pf) + 2e-12 } else { 0.0 };
        (2.0 * dl * up + 4e-12, 2.0 * (dl + 2e-12) * dn + 4e-12)
    }
    /// f64 reserves carry their own absolute rounding.
    fn res_noise(&self, a: &Dd, b: &Dd) -> f64 {
        if self.dec() {
            0.0
        } else {
            (a.to_f64().abs() + b.to_f64().abs()) * 3e-16
        }
    }

    fn withdraw(&mut self, u: usize, raw: i128, lo: u64, hi: u64, leaving: bool) -> bool {
        let pre = self.obs.clone();
        let j = J::W(u, raw, lo, hi);
        let key = (u, lo, hi);
        match apply(&mut self.e, &j) {
            Err(msg) => {
                self.recover();
                for tag in if leaving { &["E04", "E12"][..] } else { &["E12"][..] } {
                    self.bad(tag, "withdrawal refused", format!("u{} cannot withdraw {} of liquidity {} over [{}, {}]: {}", u, rawfmt(raw), Dd::raw12(self.m.pos[&key].raw, false), lo, hi, msg));
                }
                false
            }
            Ok(_) => {
                self.push(j);
                let post = self.e.obs();
                let raw = self.drawn(raw as u128, self.m.pos[&key].raw);
                let l = Dd::raw12(raw, false);
                let (pa, pb) = (self.tt(lo), self.tt(hi));
                let (wx, wy) = Model::amounts(l, pre.rp, pa, pb);
                let (tx, ty) = self.amt_noise(l.to_f64(), wx.to_f64(), wy.to_f64(), pa.to_f64(), pb.to_f64());
                let (gx, gy) = (pre.x - post.x, pre.y - post.y);
                // rounding may have left the reserve short of a full payout by no more than its dust
                let short = |w: Dd, have: Dd, dust: f64, t: f64| if w > have && (w - have).to_f64() <= dust + t { have } else { w };
                let (wx, wy) = if self.dec() { (short(wx, pre.x, self.dust.0, tx), short(wy, pre.y, self.dust.1, ty)) } else { (wx, wy) };
                let ctx = || format!("withdrawal by u{} of {} over [{}, {}] at root price {}", u, rawfmt(raw as i128), lo, hi, pre.rp);
                let rx = self.res_noise(&pre.x, &post.x);
                let ry = self.res_noise(&pre.y, &post.y);
                self.near("E02", "withdraw X amount", gx, wx, tx + rx, &ctx);
                self.near("E02", "withdraw Y amount", gy, wy, ty + ry, &ctx);
                if leaving {
                    self.near("E04", "X entitlement on leaving", gx.min(wx), wx, tx + rx, &ctx);
                    self.near("E04", "Y entitlement on leaving", gy.min(wy), wy, ty + ry, &ctx);
                }
                let p = self.m.pos.get_mut(&key).expect("position");
                let held = p.raw;
                p.raw -= raw;
                self.payout(&key, held, &pre, &post, if leaving { "exit" } else { "withdrawal" });
                if self.m.pos[&key].raw == 0 {
                    self.m.pos.remove(&key);
                }
                self.settle_lp(&pre, post, wx - gx, wy - gy, tx + rx, ty + ry);
                true
            }
        }
    }

    /// Fees and adjustments paid out with an operation on a position are exactly what it earned.
    fn payout(&mut self, key: &Key, held: u128, pre: &Obs, post: &Obs, what: &str) {
        let (a, b) = (pots(pre), pots(post));
        let p = self.m.pos[key].clone();
        let l = (held.max(1) as f64) / 1e12;
        for i in 0..4 {
            let paid = a[i] - b[i];
            let tol = p.slack[i].to_f64()
                + if self.dec() { 4e-12 } else { 1e-12 + (l * pre.fg[i].to_f64().abs() * 2e-15) + p.owed[i].to_f64() * 4e-12 + self.res_noise(&a[i], &b[i]) };
            let tag = if i < 2 { "E07" } else { "E08" };
            self.near(tag, &format!("{} paid to position", POT[i]), paid, p.owed[i], tol, &|| format!("at {} of u{} [{}, {}]", what, key.0, key.1, key.2));
            if what == "exit" {
                self.near("E04", &format!("{} paid on leaving", POT[i]), paid.min(p.owed[i]), p.owed[i], tol, &|| format!("to u{} [{}, {}]", key.0, key.1, key.2));
            }
            if !p.owed[i].is_zero() {
                self.st.hit(if i < 2 { "probe.fee collected" } else { "probe.adjustment collected" });
            }
            self.pot_dust[i] += tol;
        }
        let q = self.m.pos.get_mut(key).unwrap();
        q.owed = [Dd::ZERO; 4];
        q.slack = [Dd::ZERO; 4];
    }

    fn settle_lp(&mut self, pre: &Obs, post: Obs, _gx: Dd, _gy: Dd, tx: f64, ty: f64) {
        // providers never move the price or the growth of fees
        if post.rp != pre.rp || post.tick != pre.tick {
            for tag in ["E11", "E03"] {
                self.bad(tag, "provider moves the price", format!("({}, {}) -> ({}, {})", pre.tick, pre.rp, post.tick, post.rp));
            }
        }
        if post.fg != pre.fg {
            self.bad("E03", "provider changes fee growth", format!("{:?} -> {:?}", pre.fg, post.fg));
        }
        self.dust.0 += tx;
        self.dust.1 += ty;
        self.obs = post;
        self.invariants();
    }

    /// What must hold after every accepted operation, whatever it was.
    fn invariants(&mut self) {
        let o = self.obs.clone();
        self.m.rp = o.rp;
        self.m.tick = o.tick;
        // active liquidity and registry
        let want = self.m.liq_at(o.tick);
        self.st.hit("chk.active liquidity");
        let ltol = if self.dec() { 1e-13 } else { want.to_f64() * 1e-15 };
        self.near("E01", "active liquidity", o.liq, want, ltol + 1e-13, &|| format!("at tick {}", o.tick));
        let ts = self.m.ticks();
        if ts != o.ticks {
            self.bad("E01", "initialised ticks", format!("{:?} instead of {:?}", o.ticks, ts));
        }
        if o.ntick != o.ticks.len() || o.npos != self.m.pos.len() {
            self.bad("E01", "position count", format!("{} positions, {} ticks instead of {}, {}", o.npos, o.ntick, self.m.pos.len(), ts.len()));
        }
        // tick and price agree
        self.st.hit("chk.tick coherence");
        // (the fixed-point engine walks ticks by repeated multiplication)
        let eps = o.rp.to_f64() * if self.dec() { 1e-9 } else { 4e-15 };
        if o.rp + Dd::f(eps) < self.tt(o.tick) || o.rp - Dd::f(eps) > self.tt(o.tick + self.cfg.spacing) {
            self.bad("E11", "price outside its tick", format!("root price {} at tick {} [{}, {}]", o.rp, o.tick, self.tt(o.tick), self.tt(o.tick + self.cfg.spacing)));
        }
        // reserves and pots are never overdrawn
        self.st.hit("chk.no negative balance");
        let neg = |v: Dd, t: f64| v.to_f64() < -t;
        let fl = !self.dec();
        let (dx, dy) = if fl { self.dust } else { (0.0, 0.0) };
        if neg(o.x, dx) || neg(o.y, dy) {
            self.bad("E03", "negative reserve", format!("X {} Y {}", o.x, o.y));
        }
        let pt = pots(&o);
        for i in 0..4 {
            if neg(pt[i], if fl { self.pot_dust[i] + 1e-12 } else { 0.0 }) {
                self.bad("E03", "negative pot", format!("{} pot {}", POT[i], pt[i]));
            }
        }
        // solvency: reserves cover every position, and nothing beyond dust is stranded
        let tf = |t: u64| self.tt(t);
        let (cx, cy) = self.m.owed_tokens(&TickTable(&tf));
        let k = self.m.pos.len() as f64 + 1.0;
        let lt: f64 = self.m.pos.values().map(|p| p.raw as f64 / 1e12).sum();
        let cur = if self.dec() {
            ((cx.to_f64() + 1.0) * k * 4e-12, (cy.to_f64() + 1.0) * k * 4e-12)
        } else {
            (lt * 1e-15 * k + 1e-12, lt * o.rp.to_f64() * 1e-15 * k + 1e-12)
        };
        let (tx, ty) = (self.dust.0 + cur.0, self.dust.1 + cur.1);
        self.near("E04", "X reserve covers positions", o.x, cx, tx, &|| String::from("(reserve vs. claims)"));
        self.near("E04", "Y reserve covers positions", o.y, cy, ty, &|| String::from("(reserve vs. claims)"));
        for i in 0..4 {
            let mut sum = Dd::ZERO;
            let mut sl = self.pot_dust[i] + if fl { pt[i].to_f64().abs() * 1e-14 } else { 1e-12 };
            for p in self.m.pos.values() {
                sum += p.owed[i];
                sl += p.slack[i].to_f64() + if fl { p.raw as f64 / 1e12 * o.fg[i].to_f64() * 2e-15 } else { 2e-12 };
            }
            self.near(if i < 2 { "E07" } else { "E08" }, &format!("{} pot covers what is owed", POT[i]), pt[i], sum, sl, &|| String::new());
            self.near("E04", &format!("{} pot is solvent", POT[i]), pt[i].min(sum), sum, sl, &|| String::from("(pot vs. what positions are owed)"));
        }
    }

    fn exempt(&self, r: &SwapRef, pre: &Obs, down: bool, msg: &str) -> Option<&'static str> {
        let outn = if down { r.ny } else { r.nx } + r.nh;
        let res = if down { pre.y } else { pre.x };
        let dust = if down { self.dust.1 } else { self.dust.0 };
        if r.recv.is_zero() || r.segs.is_empty() {
            return Some("swap: no liquidity in this direction");
        }
        if r.below_zero {
            return Some("swap: would pass tick zero");
        }
        if (r.out).to_f64() <= 4.0 * outn + 4e-12 {
            return Some("swap: output below rounding");
        }
        let short = (r.out + r.adj - res).to_f64();
        if res.to_f64() <= 4.0 * outn + 4e-12 && short < 0.9e-3 && msg.contains("cannot be nil") {
            // (earlier payouts were rounded up by what the liquidity left stands for)
            return Some("swap: dust of liquidity, nothing in the reserve");
        }
        if self.dec() && msg.contains("checked_mul") {
            // products of twelve-digit numbers are formed in 128 bits
            let rp = r.segs.iter().map(|s| s.rp0.to_f64().max(s.rp1.to_f64())).fold(1.0, f64::max);
            if r.maxl.to_f64() * rp * rp > 1.7e14 {
                return Some("swap: beyond 128 bits");
            }
        }
        if msg.contains("avg price") {
            // the guard against rounding noise: only a segment of (nearly) no price movement, on
            // which rounding outweighs the fee, may trip it
            let f = self.cfg.fee_ppm as f64 * 1e-6;
            let l = r.maxl.to_f64();
            if r.ambiguous {
                return Some("swap: rounding guard on the dust beyond a boundary");
            }
            for s in &r.segs {
                let (o, n) = (s.out_plain.to_f64(), (s.net + s.fee).to_f64());
                let step = ((s.rp0 - s.rp1) / s.rp0).to_f64().abs();
                let rel = if down { outn / o.max(1e-300) } else { outn / o.max(1e-300) } + 4e-12 / n.max(1e-300);
                let _ = l;
                if rel > (f + step) * 0.25 {
                    return Some("swap: rounding guard");
                }
            }
        }
        if short >= -(dust + outn * 4.0 + res.to_f64() * 1e-9) && down && self.m.ticks().first() == Some(&0) && msg.contains("subtract with overflow") {
            return Some("swap: would pass tick zero");
        }
        if short + outn * 4.0 >= 0.9e-3 {
            // (a thousandth of a token may be missing, not more)
            return Some("swap: much rounding in the reserve");
        }
        None
    }

    fn swap(&mut self, down: bool, amt: u128, orc: u128) -> bool {
        let pre = self.obs.clone();
        let r = {
            let tf = |t: u64| self.tt(t);
            self.m.swap(down, Dd::raw12(amt, false), E::oracle(orc), &TickTable(&tf))
        };
        let j = J::S(down, amt as i128, orc);
        let dirn = if down { "X in" } else { "Y in" };
        match apply(&mut self.e, &j) {
            Err(msg) => {
                self.recover();
                match self.exempt(&r, &pre, down, &msg) {
                    Some(why) => self.st.hit(&format!("exempt.{}", why)),
                    None => {
                        let d = format!("{} {} at root price {} oracle {} refused: {} (should pay {}) [{}]", dirn, rawfmt(amt as i128), pre.rp, E::oracle(orc), msg, r.out, segs(&r));
                        self.bad("E12", "swap refused", d);
                    }
                }
                self.st.hit("op.swap refused");
                false
            }
            Ok(out) => {
                let out = out.unwrap();
                self.push(j);
                let post = self.e.obs();
                self.probe(&r);
                let ctx = || format!("swap {} {} at root price {} tick {} oracle {} [{}]", dirn, rawfmt(amt as i128), pre.rp, pre.tick, E::oracle(orc), segs(&r));
                let (nin, nout) = if down { (r.nx, r.ny) } else { (r.ny, r.nx) };
                // --- conservation between the report, reserves and pots
                let (ri, ro, pi, po) = if down { ((pre.x, post.x), (pre.y, post.y), 0, 3) } else { ((pre.y, post.y), (pre.x, post.x), 1, 2) };
                let (p0, p1) = (pots(&pre), pots(&post));
                let ex = |w: &Self, a: &Dd, b: &Dd, n: f64| if w.dec() { 1e-13 } else { n * (a.to_f64().abs() + b.to_f64().abs() + 1e-300) * 2.3e-16 };
                let ns = r.segs.len() as f64 + 2.0;
                let t = ex(self, &ri.0, &ri.1, ns) + ex(self, &out.recv, &out.fee, ns);
                self.near("E03", "input reserve matches report", ri.1 - ri.0, out.recv - out.fee, t, &ctx);
                let t = ex(self, &ro.0, &ro.1, ns) + ex(self, &out.send, &out.adj, ns);
                self.near("E03", "output reserve matches report", ro.1 - ro.0, out.send - out.adj, t, &ctx);
                let t = ex(self, &p0[pi], &p1[pi], ns) + ex(self, &out.fee, &out.fee, ns);
                self.near("E03", "fee pot matches report", p1[pi] - p0[pi], out.fee, t, &ctx);
                let t = ex(self, &p0[po], &p1[po], ns) + ex(self, &out.adj, &out.adj, ns);
                self.near("E03", "adjustment pot matches report", p1[po] - p0[po], out.adj, t, &ctx);
                for i in 0..4 {
                    if i != pi && i != po && p0[i] != p1[i] {
                        self.bad("E03", "unrelated pot changes", format!("{} pot {} -> {}; {}", POT[i], p0[i], p1[i], ctx()));
                    }
                }
                let given = Dd::raw12(amt, false);
                if out.recv > given + Dd::f(if self.dec() { 0.0 } else { given.to_f64() * 1e-15 * ns }) {
                    self.bad("E03", "takes more than given", format!("{} of {}; {}", out.recv, given, ctx()));
                }
                if out.send > Dd::ZERO || out.fee < Dd::ZERO || out.adj < Dd::ZERO {
                    self.bad("E03", "sign of a reported amount", format!("send {} fee {} adj {}; {}", out.send, out.fee, out.adj, ctx()));
                }
                // --- pricing
                self.near("E05", "swap input", out.recv, r.recv, nin + 1e-12, &ctx);
                let pin = if down { pre.rp.to_f64().powi(2) } else { 1.0 / pre.rp.to_f64().powi(2) };
                // the reserve may be short of the last bit of the payout by rounding
                let lack = (r.out + r.adj - ro.0).to_f64().max(0.0).min(1e-3);
                self.near("E05", "swap output", -out.send, r.out, nout + r.nh + nin * pin + lack, &ctx);
                let rt = if self.dec() { 1e-11 + r.segs.len() as f64 * 4e-12 } else { pre.rp.to_f64() * 1e-12 };
                let lmin = self.thin(&r).max(1e-12);
                // the price a given noise of the input amount makes
                let pr = pre.rp.max(r.rp).to_f64();
                let rt = rt + if down { nin * pr * pr / lmin } else { nin / lmin };
                // a trade that ends on a boundary, give or take rounding, may stop there or cross it
                let mut want = r.rp;
                if r.ambiguous {
                    for t in self.m.ticks() {
                        let b = self.tt(t);
                        if (post.rp - b).abs() < (post.rp - want).abs() {
                            want = b;
                        }
                    }
                }
                self.near("E05", "end root price", post.rp, want, rt, &ctx);
                self.near("E05", "reported end price", out.end, post.rp * post.rp, post.rp.to_f64().powi(2) * 1e-11 + 2e-12, &ctx);
                let avg = if out.recv.is_zero() { Dd::ZERO } else if down { -out.send / out.recv } else if out.send.is_zero() { Dd::ZERO } else { out.recv / -out.send };
                if !out.recv.is_zero() && !out.send.is_zero() {
                    let t = avg.to_f64() * 1e-11 + 2e-12;
                    self.near("E05", "reported average price", out.avg, avg, t, &ctx);
                }
                // --- never better than the price the trader saw
                let net = out.recv - out.fee;
                let p2 = pre.rp * pre.rp;
                let best = if down { net * p2 } else { net / p2 };
                self.st.hit("chk.no better than spot");
                let gain = (-out.send - best).to_f64();
                let tol = nout + nin * if down { p2.to_f64() } else { 1.0 / p2.to_f64() };
                self.st.max("better than spot", gain / tol);
                if gain > tol {
                    self.bad("E06", "better than spot", format!("pays {} where the starting price gives {}; {}", -out.send, best, ctx()));
                }
                // --- fees and adjustment of the whole trade
                self.near("E07", "fee charged", out.fee, r.fee, nin * self.m.fee_rate().to_f64() * 2.0 + if self.dec() { 2e-12 * ns } else { out.recv.to_f64() * 4e-15 + 1e-18 }, &ctx);
                if self.cfg.c_pct == 0 || orc == 0 {
                    if !out.adj.is_zero() {
                        self.bad("E08", "adjustment without a reason", format!("{} withheld; {}", out.adj, ctx()));
                    }
                }
                self.near("E08", "adjustment withheld", out.adj, r.adj, nout + r.nh + lack, &ctx);
                // --- growth accumulators
                self.attribute(&r, &out, down, &pre, &post);
                // --- direction
                if (down && post.rp > pre.rp) || (!down && post.rp < pre.rp) {
                    self.bad("E11", "price moves the wrong way", format!("{} -> {}; {}", pre.rp, post.rp, ctx()));
                }
                if (down && post.tick > pre.tick) || (!down && post.tick < pre.tick) {
                    self.bad("E11", "tick moves the wrong way", format!("{} -> {}; {}", pre.tick, post.tick, ctx()));
                }
                if r.filled && !r.ambiguous && r.segs.last().map_or(false, |s| !s.crossed) {
                    let e = post.rp.to_f64() * if self.dec() { 1e-9 } else { 1e-13 };
                    if post.rp + Dd::f(e) < self.tt(post.tick) || post.rp - Dd::f(e) > self.tt(self.m.snap(post.tick) + self.cfg.spacing) {
                        self.bad("E11", "tick of a partial fill", format!("root price {} at tick {}; {}", post.rp, post.tick, ctx()));
                    }
                }
                self.dust.0 += r.nx + if down { 0.0 } else { r.nh * 0.0 };
                self.dust.1 += r.ny;
                self.obs = post;
                self.invariants();
                true
            }
        }
    }

    /// Least liquidity the last part of a trade may have met.
    fn thin(&self, r: &SwapRef) -> f64 {
        let mut l = r.segs.last().map(|s| s.liq.to_f64()).unwrap_or(1.0);
        if r.ambiguous {
            for t in self.m.ticks() {
                for q in [t, t.saturating_sub(self.cfg.spacing)] {
                    let v = self.m.liq_at(q).to_f64();
                    if v > 0.0 {
                        l = l.min(v);
                    }
                }
            }
        }
        l
    }
    fn probe(&mut self, r: &SwapRef) {
        if r.segs.len() > 1 {
            self.st.hit("probe.swap crosses a boundary");
        }
        if r.segs.len() > 3 {
            self.st.hit("probe.swap crosses several boundaries");
        }
        if r.gaps > 0 && !r.segs.is_empty() {
            self.st.hit("probe.swap jumps a gap");
        }
        if r.hmm_segs > 0 {
            self.st.hit("probe.adjusted segment");
        }
        if r.ambiguous {
            self.st.hit("probe.swap ends exactly on a boundary");
        }
        if !r.filled {
            self.st.hit("probe.swap runs out of liquidity");
        }
    }

    /// Accrue the trade to the positions that were in range, segment by segment.
    fn attribute(&mut self, r: &SwapRef, out: &SwapOut, down: bool, pre: &Obs, post: &Obs) {
        let (fi, ai) = if down { (0, 3) } else { (1, 2) };
        // distribution is judged on the amounts really charged
        let kf = if r.fee.is_zero() { Dd::ONE } else { out.fee / r.fee };
        let ka = if r.adj.is_zero() { Dd::ONE } else { out.adj / r.adj };
        let dec = self.dec();
        let fr = self.m.fee_rate().to_f64();
        let (mut gf, mut ga) = (Dd::ZERO, Dd::ZERO);
        let (mut nf, mut na) = (0.0, 0.0);
        let multi = r.segs.len() > 1 || r.ambiguous;
        // a reserve that rounding left short is made up for by the last segment alone
        let lack = (r.out + r.adj - if down { pre.y } else { pre.x }).to_f64().max(0.0).min(1e-3);
        let thin = self.thin(r).max(1e-12);
        for s in &r.segs {
            let lf = s.liq.to_f64();
            // rounding of one segment's fee, as growth per unit of liquidity
            let nseg = if multi { (if down { r.nx } else { r.ny }) * fr * 2.0 } else { 0.0 };
            let aseg = if multi { (if down { r.ny } else { r.nx }) + r.nh + lack } else { 0.0 };
            let lf = if r.ambiguous { lf.min(thin) } else { lf };
            let (sf, sa) = if dec {
                (2e-12 + (nseg + 2e-12) / lf, 2e-12 + (aseg + 2e-12) / lf)
            } else {
                // (the fee is a difference of two amounts of the order's size)
                (nseg / lf + (s.fee / s.liq).to_f64() * 4e-12 + (s.net + s.fee).to_f64() * 4e-16 / lf, aseg / lf + (s.out_adj / s.liq).to_f64().abs() * 4e-12)
            };
            gf += s.fee * kf / s.liq;
            ga += s.out_adj * ka / s.liq;
            nf += sf;
            na += sa;
            for k in &s.members {
                if let Some(p) = self.m.pos.get_mut(k) {
                    let l = p.liq();
                    p.owed[fi] += s.fee * kf * l / s.liq;
                    p.owed[ai] += s.out_adj * ka * l / s.liq;
                    p.slack[fi] += l * Dd::f(sf);
                    p.slack[ai] += l * Dd::f(sa);
                }
            }
        }
        if r.ambiguous {
            // dust may have gone to whoever is beyond the boundary
            let (df, da) = if down { (r.nx * fr * 2.0, r.ny + r.nh) } else { (r.ny * fr * 2.0, r.nx + r.nh) };
            for p in self.m.pos.values_mut() {
                p.slack[fi] += Dd::f(df + 1e-12);
                p.slack[ai] += Dd::f(da + 1e-12);
            }
        }
        let rel = |w: &Self, i: usize| if w.dec() { 2e-12 } else { (pre.fg[i].to_f64().abs() + post.fg[i].to_f64().abs()) * 4e-16 * (r.segs.len() as f64 + 1.0) };
        let (tf, ta) = (nf + rel(self, fi), na + rel(self, ai));
        self.near("E07", "fee growth", post.fg[fi] - pre.fg[fi], gf, tf, &|| segs(r));
        self.near("E08", "adjustment growth", post.fg[ai] - pre.fg[ai], ga, ta, &|| segs(r));
        for i in 0..4 {
            if i != fi && i != ai && post.fg[i] != pre.fg[i] {
                self.bad(if i < 2 { "E07" } else { "E08" }, "unrelated growth changes", format!("{} growth {} -> {}", POT[i], pre.fg[i], post.fg[i]));
            }
        }
        // rounding that stays in the pots for good
        for (i, v) in [(fi, nf), (ai, na)] {
            let l: f64 = r.segs.iter().map(|s| s.liq.to_f64()).fold(0.0, f64::max);
            self.pot_dust[i] += if dec { l * v + 1e-12 } else { l * v };
        }
    }

    // -------------------------------------------------------------- faults
    fn crash(&mut self, lose: usize) {
        let n = lose.min(self.recs.len());
        self.st.hit("fault.server crash and journal replay");
        self.st.hit("fault.recovery under other clocks and hash keys");
        if n > 0 {
            self.st.add("fault.journal records lost", n as u64);
        }
        let live = if n == 0 { Some(self.e.digest()) } else { None };
        let mut target = self.obs.clone();
        for _ in 0..n {
            let r = self.recs.pop().unwrap();
            self.m = r.before;
            target = r.obs;
            self.dust = r.dust;
            self.pot_dust = r.pot_dust;
        }
        // two independent recoveries, with differently seeded hash maps
        let (a, b) = (self.rebuild(), self.rebuild());
        self.st.hit("chk.recovery");
        let (oa, da, db) = (a.obs(), a.digest(), b.digest());
        if !same_obs(&oa, &target) {
            self.bad("E10", "recovered state", format!("{:?} instead of {:?}", oa, target));
        }
        if da != db || live.map_or(false, |l| l != da) {
            self.bad("E10", "recovered internal state", "two executions of one history differ".into());
        }
        self.e = a;
        self.obs = oa;
        self.m.rp = self.obs.rp;
        self.m.tick = self.obs.tick;
    }

    /// A pool with a negative price, fee rate or HMM constant, or one above two, cannot be opened.
    fn illegal_pool(&mut self, v: u64) {
        let n = v / 4;
        let (name, b) = match v % 4 {
            0 => ("pool at a negative price", BadPool::Price(n + 1)),
            1 => ("pool with a negative HMM constant", BadPool::Hmm(n + 1)),
            2 => ("pool with an HMM constant above two", BadPool::HmmHigh(n + 1)),
            _ => ("pool with a negative fee rate", BadPool::Fee(n + 1)),
        };
        self.st.hit(&format!("fault.illegal request: {}", name));
        self.st.hit("chk.illegal request");
        let cfg = self.cfg.clone();
        if let Ok(Some(_)) = guarded(|| E::create_bad(&cfg, b)) {
            self.bad("E09", "illegal request accepted", format!("{} (by {:e}) was opened", name, (n + 1) as f64 * 1e-12));
        }
    }

    fn absurd(&mut self, k: u64, u: usize, lo: u64, hi: u64) {
        let before = self.e.digest();
        let r = guarded(|| self.e.absurd(k, u, lo, hi));
        let after = self.e.digest();
        match r {
            Ok((_, true)) => (),
            Ok((name, _)) => self.bad("E09", "illegal request accepted", format!("{} (u{} [{}, {}]) was accepted", name, u, lo, hi)),
            Err(why) if after != before => {
                self.bad("E09", "refused request has an effect", format!("outlandish request {} (u{} [{}, {}]): {}", k, u, lo, hi, why))
            }
            Err(_) => (),
        }
        self.st.hit("fault.illegal request: amount or price at the end of the number format or beyond");
        self.st.hit("chk.illegal request");
        if after != before {
            self.e = self.rebuild();
        }
    }

    fn illegal(&mut self, kind: u8, u: usize, lo: u64, hi: u64, v: u128) {
        match v % 8 {
            5 => self.illegal_pool((v / 8) as u64),
            6 => self.absurd((v / 8) as u64, u, lo, hi),
            _ => (),
        }
        let v = v.max(1) as i128;
        let one = E12 as i128;
        let have = self.m.pos.get(&(u, lo, hi)).map(|p| p.raw as i128);
        let name;
        let other = 7; // never a provider
        let before = self.e.digest();
        let call: Box<dyn Fn(&mut E)> = match kind {
            0 => {
                name = "withdrawal of a quantum too much";
                let Some(h) = have else { return };
                if h == 0 { return };
                let l = if self.dec() { h + 1 } else { h + (h >> 50).max(1) };
                Box::new(move |e| e.withdraw(u, l, lo, hi))
            }
            1 => {
                name = "withdrawal of somebody else's position";
                if have.map_or(true, |h| h == 0) { return };
                let l = have.unwrap();
                Box::new(move |e| e.withdraw(other, l.min(v * one), lo, hi))
            }
            2 => {
                name = "deposit over an inverted range";
                Box::new(move |e| e.deposit(u, v * one, v * one, hi, lo))
            }
            3 => {
                name = "deposit over an empty range";
                Box::new(move |e| e.deposit(u, v * one, v * one, lo, lo))
            }
            4 => {
                name = "deposit of a negative amount of X";
                Box::new(move |e| e.deposit(u, -v, v * one, lo, hi))
            }
            5 => {
                name = "deposit of a negative amount of Y";
                Box::new(move |e| e.deposit(u, v * one, -v, lo, hi))
            }
            6 => {
                name = "withdrawal of a negative amount";
                if have.is_none() { return };
                Box::new(move |e| e.withdraw(u, -v * one, lo, hi))
            }
            7 => {
                name = "swap of a nil or negative amount of X";
                let a = if v % 2 == 0 { 0 } else { -v };
                Box::new(move |e| { e.swap_x(a, 0); })
            }
            8 => {
                name = "swap of a nil or negative amount of Y";
                let a = if v % 2 == 0 { 0 } else { -v };
                Box::new(move |e| { e.swap_y(a, 0); })
            }
            9 => {
                name = "withdrawal over an inverted range";
                let Some(h) = have else { return };
                if h == 0 { return };
                Box::new(move |e| e.withdraw(u, h, hi, lo))
            }
            10 => {
                name = "withdrawal of much too much";
                let Some(h) = have else { return };
                Box::new(move |e| e.withdraw(u, h + v * one, lo, hi))
            }
            _ => {
                name = "withdrawal from a range never provided to";
                if self.m.pos.contains_key(&(u, lo, hi + self.cfg.spacing)) { return };
                let sp = self.cfg.spacing;
                Box::new(move |e| e.withdraw(u, v * one, lo, hi + sp))
            }
        };
        self.st.hit(&format!("fault.illegal request: {}", name));
        self.st.hit("chk.illegal request");
        let r = guarded(|| call(&mut self.e));
        if r.is_ok() {
            self.bad("E09", "illegal request accepted", format!("{} (u{} [{}, {}] v {}) was accepted", name, u, lo, hi, v));
        } else if self.e.digest() != before {
            self.bad("E09", "refused request has an effect", format!("{} (u{} [{}, {}] v {})", name, u, lo, hi, v));
        }
        if r.is_ok() || self.e.digest() != before {
            self.e = self.rebuild();
        }
    }

    // -------------------------------------------------------------- forks
    fn fork_swap(&self, e: &mut E, m: &mut Model, done: &mut Vec<J>, down: bool, amt: u128, orc: u128) -> Option<(SwapOut, SwapRef)> {
        let r = {
            let tf = |t: u64| self.tt(t);
            m.swap(down, Dd::raw12(amt, false), E::oracle(orc), &TickTable(&tf))
        };
        let j = J::S(down, amt as i128, orc);
        let out = match apply(e, &j) {
            Ok(o) => o?,
            Err(_) => {
                // the refused leg is discarded
                *e = self.rebuild();
                for d in done.iter() {
                    let _ = apply(e, d);
                }
                return None;
            }
        };
        done.push(j);
        let o = e.obs();
        m.rp = o.rp;
        m.tick = o.tick;
        Some((out, r))
    }
    /// Nothing is gained by trading there and back, in any number of pieces.
    fn trip(&mut self, down: bool, amt: &Amt, orc: u128, cuts: &[u64]) {
        self.st.hit("op.fork: round trip");
        let total = self.resolve(down, amt);
        let (mut e, mut m) = self.fork();
        let mut done: Vec<J> = vec![];
        let p2 = self.obs.rp.to_f64().powi(2);
        let mut noise = 0.0;
        let mut spent = Dd::ZERO;
        let mut got = Dd::ZERO;
        let n = cuts.len().max(1) as u128;
        for i in 0..n {
            let a = total / n + if i == 0 { total % n } else { 0 };
            if a == 0 {
                continue;
            }
            match self.fork_swap(&mut e, &mut m, &mut done, down, a, orc) {
                Some((o, r)) => {
                    spent += o.recv;
                    got += -o.send;
                    noise += if down { r.nx + r.ny / p2 } else { r.ny + r.nx * p2 };
                }
                None => self.st.hit("exempt.fork: refused leg"),
            }
        }
        let mut rem = got.to_raw12();
        let mut back = Dd::ZERO;
        let k = cuts.len().max(1);
        for i in 0..k {
            let w = cuts.get(i).copied().unwrap_or(1).max(1) as u128;
            let a = if i + 1 == k { rem } else { rem / (w + 1) };
            if a == 0 {
                continue;
            }
            match self.fork_swap(&mut e, &mut m, &mut done, !down, a, orc) {
                Some((o, r)) => {
                    rem -= o.recv.to_raw12_near().min(rem);
                    back += -o.send;
                    noise += if down { r.nx + r.ny / p2 } else { r.ny + r.nx * p2 };
                }
                None => self.st.hit("exempt.fork: refused leg"),
            }
        }
        self.st.hit("chk.round trip");
        let gain = (back - spent).to_f64();
        self.st.max("round trip gain", gain / (noise * 4.0 + 1e-11));
        if gain > noise * 4.0 + 1e-11 {
            self.bad("E06", "round trip gains", format!("{} {} in, {} back, {} of the other token left; root price {} oracle {}", if down { "X" } else { "Y" }, spent, back, rawfmt(rem as i128), self.obs.rp, E::oracle(orc)));
        }
    }
    /// One order or two halves of it: the same result.
    fn split(&mut self, down: bool, amt: &Amt, orc: u128, ppm: u64) {
        self.st.hit("op.fork: split order");
        let total = self.resolve(down, amt);
        let a1 = (total / 1_000_000) * ppm as u128 + (total % 1_000_000) * ppm as u128 / 1_000_000;
        if a1 == 0 || a1 >= total {
            return;
        }
        let (mut e, mut m) = self.fork();
        let mut done: Vec<J> = vec![];
        let Some((o, r)) = self.fork_swap(&mut e, &mut m, &mut done, down, total, orc) else { return };
        let rp_one = m.rp;
        let (mut e, mut m) = self.fork();
        let mut done: Vec<J> = vec![];
        let Some((o1, r1)) = self.fork_swap(&mut e, &mut m, &mut done, down, a1, orc) else { return };
        let rest = total - o1.recv.to_raw12_near().min(total);
        let rest = rest.min(total - a1).max(1);
        let second = if r.filled { self.fork_swap(&mut e, &mut m, &mut done, down, rest, orc) } else { self.fork_swap(&mut e, &mut m, &mut done, down, total - a1, orc) };
        let Some((o2, r2)) = second else {
            self.st.hit("exempt.fork: refused leg");
            return;
        };
        self.st.hit("chk.split order");
        let p2 = self.obs.rp.to_f64().powi(2).max(rp_one.to_f64().powi(2));
        let i2 = 1.0 / self.obs.rp.to_f64().powi(2).min(rp_one.to_f64().powi(2));
        let (nx, ny) = (r.nx + r1.nx + r2.nx, r.ny + r1.ny + r2.ny);
        let (nin, nout) = if down { (nx, ny + nx * p2) } else { (ny, nx + ny * i2) };
        let nh = r.nh + r1.nh + r2.nh;
        let ctx = || format!("order of {} split at {}: {} then {}", rawfmt(total as i128), rawfmt(a1 as i128), segs(&r1), segs(&r2));
        self.near("E06", "split order output", -o1.send - o2.send, -o.send, nout * 2.0 + nh * 2.0, &ctx);
        self.near("E06", "split order input", o1.recv + o2.recv, o.recv, nin * 2.0 + 4e-12, &ctx);
        let t = nin * 2.0 + 1e-11;
        self.near("E06", "split order fee", o1.fee + o2.fee, o.fee, t, &ctx);
        self.near("E06", "split order adjustment", o1.adj + o2.adj, o.adj, nout * 2.0 + nh * 2.0, &ctx);
        let lmin = r.segs.iter().chain(&r2.segs).map(|s| s.liq.to_f64()).fold(f64::MAX, f64::min).max(1e-9);
        let t = 2e-11 * self.obs.rp.to_f64().max(1.0) + 2.0 * nin * if down { p2 / lmin } else { 1.0 / lmin };
        if r.ambiguous || r1.ambiguous || r2.ambiguous {
            self.st.hit("exempt.split order end price: boundary decided by rounding");
        } else {
            self.near("E06", "split order end price", m.rp, rp_one, t, &ctx);
        }
    }
    /// Adding and removing liquidity with nothing in between never returns more than was paid.
    fn inout(&mut self, u: usize, x: i128, y: i128, lo: u64, hi: u64) {
        self.st.hit("op.fork: add and remove");
        let u = if self.m.pos.contains_key(&(u, lo, hi)) { 7 } else { u };
        if self.m.pos.contains_key(&(u, lo, hi)) {
            return;
        }
        let (mut e, _) = self.fork();
        let o0 = e.obs();
        let cfg = self.cfg.clone();
        let Ok(q) = guarded(|| E::quote_liq(&cfg, &o0, x, y, lo, hi)) else { return };
        if q == 0 || apply(&mut e, &J::D(u, x, y, lo, hi)).is_err() {
            return;
        }
        let o1 = e.obs();
        if apply(&mut e, &J::W(u, q as i128, lo, hi)).is_err() {
            return;
        }
        let o2 = e.obs();
        self.st.hit("chk.add and remove");
        let tol = |w: &Self, a: &Dd, b: &Dd| if w.dec() { 0.0 } else { w.res_noise(a, b) * 2.0 };
        let (gx, gy) = ((o0.x - o2.x).to_f64(), (o0.y - o2.y).to_f64());
        if gx > tol(self, &o0.x, &o1.x) || gy > tol(self, &o0.y, &o1.y) {
            self.bad("E02", "add and remove gains", format!("reserves X {} -> {} -> {}, Y {} -> {} -> {}", o0.x, o1.x, o2.x, o0.y, o1.y, o2.y));
        }
        let (a, b) = (pots(&o0), pots(&o2));
        for i in 0..4 {
            if (a[i] - b[i]).to_f64().abs() > if self.dec() { 0.0 } else { self.res_noise(&a[i], &b[i]) + (q as f64 / 1e12) * o0.fg[i].to_f64() * 2e-15 } {
                self.bad(if i < 2 { "E07" } else { "E08" }, "newcomer takes earlier earnings", format!("{} pot {} -> {}", POT[i], a[i], b[i]));
            }
        }
        if o2.ticks != o0.ticks || o2.npos != o0.npos || (o2.liq - o0.liq).to_f64().abs() > if self.dec() { 0.0 } else { o0.liq.to_f64() * 1e-15 } {
            self.bad("E01", "add and remove leaves a trace", format!("{:?} -> {:?}", o0, o2));
        }
    }
    /// Requests of different positions that arrive between the same trades commute.
    fn commute(&mut self, a: &Ev, b: &Ev) {
        let res = |w: &Self, e: &Ev| -> Option<(J, Key)> {
            match e {
                Ev::Dep { u, x, y, lo, hi } => Some((J::D(*u, *x as i128, *y as i128, *lo, *hi), (*u, *lo, *hi))),
                Ev::Wd { u, lo, hi, ppm } => Some((J::W(*u, w.wd_raw(*u, *lo, *hi, *ppm)?, *lo, *hi), (*u, *lo, *hi))),
                Ev::WdRaw { u, lo, hi, raw } => {
                    let k = (*u, *lo, *hi);
                    let held = w.m.pos.get(&k)?.raw;
                    Some((J::W(*u, (*raw).min(held) as i128, *lo, *hi), k))
                }
                _ => None,
            }
        };
        let (Some((ja, ka)), Some((jb, kb))) = (res(self, a), res(self, b)) else { return };
        if ka == kb {
            return;
        }
        self.st.hit("op.fork: both orders");
        let run = |w: &Self, p: &J, q: &J| -> (E, bool, bool) {
            let (mut e, _) = w.fork();
            let r1 = apply(&mut e, p).is_ok();
            if !r1 {
                e = w.rebuild();
            }
            let r2 = apply(&mut e, q).is_ok();
            (e, r1, r2)
        };
        let (mut e1, a1, b1) = run(self, &ja, &jb);
        let (mut e2, b2, a2) = run(self, &jb, &ja);
        if !(a1 && b1 && a2 && b2) {
            self.st.hit("exempt.fork: refused leg");
            return;
        }
        self.st.hit("chk.commute");
        let (o1, o2) = (e1.obs(), e2.obs());
        let mut scale = (self.obs.x.to_f64(), self.obs.y.to_f64(), 0.0);
        for j in [&ja, &jb] {
            if let J::D(_, x, y, lo, hi) = j {
                scale.0 += *x as f64 / 1e12;
                scale.1 += *y as f64 / 1e12;
                let (cfg, o) = (self.cfg.clone(), self.obs.clone());
                scale.2 += guarded(|| E::quote_liq(&cfg, &o, *x, *y, *lo, *hi)).map_or(0.0, |q| q as f64 / 1e12);
            }
        }
        self.same("E13", &o1, &o2, scale, &format!("{:?} and {:?}", ja, jb));
        // and later payouts do not remember the order either
        let mut keys: Vec<Key> = self.m.pos.keys().cloned().collect();
        for k in [ka, kb] {
            if !keys.contains(&k) {
                keys.push(k);
            }
        }
        // a trade in both forks, then fees are collected by everybody
        for (down, part) in [(true, 1e-3), (false, 1e-3), (hash_str(&format!("{:?}", ja)) % 2 == 0, 3e-2)] {
            let amt = (o1.liq.to_f64() * part * 1e12) as i128 + 1;
            let (r1, r2) = (apply(&mut e1, &J::S(down, amt, 0)), apply(&mut e2, &J::S(down, amt, 0)));
            if r1.is_err() || r2.is_err() {
                if r1.is_err() != r2.is_err() {
                    // a trade that takes the reserve down to its dust is refused or not by that dust
                    let o = if r1.is_ok() { e1.obs() } else { e2.obs() };
                    let big = (scale.2 + o1.liq.to_f64()) * (o1.rp.to_f64() + 1.0 / o1.rp.to_f64());
                    let left = if down { o.y } else { o.x }.to_f64();
                    let (was, d) = if down { (o1.y.to_f64(), self.dust.1) } else { (o1.x.to_f64(), self.dust.0) };
                    if left <= d + (was + big) * 1e-9 {
                        self.st.hit("exempt.fork: later trade drains the reserve to dust");
                        return;
                    }
                    self.bad("E13", "later trade depends on the order", format!("{:?} and {:?}", ja, jb));
                }
                return;
            }
        }
        for k in keys {
            let (r1, r2) = (apply(&mut e1, &J::W(k.0, 0, k.1, k.2)), apply(&mut e2, &J::W(k.0, 0, k.1, k.2)));
            if r1.is_err() || r2.is_err() {
                if r1.is_err() != r2.is_err() {
                    self.bad("E13", "later collection depends on the order", format!("{:?} and {:?}: u{} [{}, {}] {:?} {:?}", ja, jb, k.0, k.1, k.2, r1.err(), r2.err()));
                }
                return;
            }
            let (o1, o2) = (e1.obs(), e2.obs());
            if !self.same("E13", &o1, &o2, scale, &format!("{:?} and {:?}, after u{} [{}, {}] collects", ja, jb, k.0, k.1, k.2)) {
                return;
            }
        }
    }
    fn same(&mut self, tag: &str, a: &Obs, b: &Obs, scale: (f64, f64, f64), what: &str) -> bool {
        let mut ok = a.tick == b.tick && a.ticks == b.ticks && a.npos == b.npos;
        let fl = !self.dec();
        let l = a.liq.to_f64() + scale.2 + self.m.pos.values().map(|p| p.raw as f64 / 1e12).sum::<f64>();
        let big = l * (a.rp.to_f64() + 1.0 / a.rp.to_f64());
        let mut cmp = |p: Dd, q: Dd, abs: f64| {
            let t = if fl { abs + (p.to_f64().abs() + q.to_f64().abs()) * 1e-12 } else { abs };
            if (p - q).to_f64().abs() > t {
                ok = false;
            }
        };
        cmp(a.liq, b.liq, 0.0);
        cmp(a.rp, b.rp, 0.0);
        // a payout rounded down to the reserve depends on what is in the reserve, by its dust
        cmp(a.x, b.x, if fl { big * 1e-14 + scale.0 * 1e-14 } else { self.dust.0 + big * 1e-11 });
        cmp(a.y, b.y, if fl { big * 1e-14 + scale.1 * 1e-14 } else { self.dust.1 + big * 1e-11 });
        for i in 0..4 {
            cmp(pots(a)[i], pots(b)[i], if fl { l * 2e-15 * (1.0 + a.fg[i].to_f64()) } else { 0.0 });
            cmp(a.fg[i], b.fg[i], if fl { 1e-18 } else { 0.0 });
        }
        if !ok {
            self.bad(tag, "the order of concurrent requests matters", format!("{}: {:?} vs {:?}", what, a, b));
        }
        ok
    }
    fn exit(&mut self, order: u64) {
        self.st.hit("op.everybody leaves");
        let mut keys: Vec<Key> = self.m.pos.keys().cloned().collect();
        let mut r = Rng::new(order);
        for i in (1..keys.len()).rev() {
            let j = r.idx(i + 1);
            keys.swap(i, j);
        }
        let n = keys.len();
        let mut left = 0;
        for k in keys {
            let raw = self.m.pos[&k].raw;
            if self.withdraw(k.0, raw as i128, k.1, k.2, true) {
                left += 1;
            }
            if self.viol.is_some() {
                return;
            }
        }
        if left == n && n > 0 {
            self.st.hit("probe.pool fully emptied");
        }
    }
}

fn rawfmt(v: i128) -> String {
    let e = E12 as i128;
    format!("{}{}.{:012}", if v < 0 { "-" } else { "" }, (v / e).abs(), (v % e).abs())
}
fn segs(r: &SwapRef) -> String {
    let v: Vec<String> = r
        .segs
        .iter()
        .map(|s| format!("L {} {}->{} net {} fee {} adj {}{}", s.liq.to_f64(), s.rp0.to_f64(), s.rp1.to_f64(), s.net.to_f64(), s.fee.to_f64(), s.out_adj.to_f64(), if s.crossed { " crossed" } else { "" }))
        .collect();
    format!("{}{}", v.join("; "), if r.ambiguous { " (on a boundary)" } else { "" })
}

/// 1.0001^(t/2) in double-double.
pub fn exact_tick(t: u64) -> Dd {
    let b = Dd::from_u128(10001) / Dd::from_u128(10000);
    let r = b.powi(t / 2);
    if t % 2 == 1 {
        r * b.sqrt()
    } else {
        r
    }
}

// ------------------------------------------------------------------ generator
struct Prof {
    n: u64,
    lp: u64,
    swap: u64,
    bad: u64,
    crash: u64,
    fork: u64,
    forks: Vec<u8>, // 0 trip 1 split 2 inout 3 commute
    cs: Vec<u64>,
    fees: Vec<u64>,
    oracle_near: u64,
}
fn profile(prop: &str, r: &mut Rng, deep: bool) -> Prof {
    let mut p = Prof {
        n: r.range(6, if deep { 90 } else { 45 }),
        lp: r.range(20, 60),
        swap: r.range(30, 70),
        bad: 3,
        crash: 3,
        fork: 4,
        forks: vec![0, 1, 2, 3],
        cs: vec![0, 100, 125, 150, 200],
        fees: vec![0, 100, 500, 3000, 10000, 100000],
        oracle_near: 60,
    };
    match prop {
        "E01" => p.lp += 30,
        "E02" => {
            p.lp += 60;
            p.fork = 20;
            p.forks = vec![2];
        }
        "E06" => {
            p.fork = 60;
            p.forks = vec![0, 1];
            p.n = r.range(5, if deep { 50 } else { 25 });
        }
        "E07" => {
            p.fees = vec![100, 3000, 10000, 100000, 300000];
            p.cs = vec![0, 0, 100, 150];
            p.forks = vec![2];
        }
        "E08" => {
            p.cs = vec![100, 125, 150, 200];
            p.oracle_near = 90;
            p.forks = vec![2];
        }
        "E09" => p.bad = 45,
        "E10" => p.crash = 30,
        "E11" => {
            p.swap += 40;
        }
        "E13" => {
            p.fork = 45;
            p.forks = vec![3];
            p.n = r.range(5, if deep { 50 } else { 25 });
        }
        _ => {}
    }
    if r.chance(2) {
        // a crowded pool: many providers' ranges, swept by trades
        let most = if deep { 400 } else { 220 };
        // (forks and recoveries repeat the whole history)
        p.n = r.range(100, if matches!(prop, "E06" | "E10" | "E13") { 140 } else { most });
        p.lp *= 2;
    }
    // swarm: a random subset of disturbances is off in every run
    if r.chance(30) && prop != "E10" {
        p.crash = 0;
    }
    if r.chance(30) && prop != "E09" {
        p.bad = 0;
    }
    p
}

struct Net {
    drop: u64,
    dup: u64,
    delay_max: u64,
    stale: u64,
}

fn gen_cfg(prop: &str, r: &mut Rng, p: &Prof) -> Cfg {
    let kind = if prop == "E14" || r.chance(60) { Kind::Dec } else { Kind::Flt };
    let spacing = *r.pick(&[1, 1, 1, 1, 2, 3, 5, 10, 10, 60, 60, 200]);
    let tick0 = match r.below(10) {
        0..=5 => r.range(300, 3000),
        6..=7 => r.range(3000, 12000),
        8 if kind == Kind::Flt && prop != "E14" && r.chance(60) => r.range(40000, 110_000),
        8 => r.range(12000, 40000),
        _ => r.range(0, 400),
    };
    let (mut c_pct, mut fee_ppm) = (*r.pick(&p.cs), *r.pick(&p.fees));
    // (the fixed-point engine raises to quarter powers only)
    if kind == Kind::Flt && c_pct > 0 && r.chance(25) {
        c_pct = r.range(101, 200);
    }
    if fee_ppm > 0 && r.chance(20) {
        fee_ppm = r.log(1, 900_000);
    }
    Cfg { kind, tick0, spacing, c_pct, fee_ppm }
}

fn gen_ev<E: Eng>(w: &World<E>, view: &Obs, r: &mut Rng, p: &Prof, scale: u64, orc: u128, user: usize) -> Ev {
    let sp = w.cfg.spacing;
    let base = view.tick / sp * sp;
    // the engines are compared where whole units of liquidity are small change
    let dual = w.prop == "E14";
    let least = if dual { (scale / 50).max(30_000) } else { 1 };
    let dep = |r: &mut Rng| -> Ev {
        // reuse existing boundaries often, so that ticks are shared
        let ts = w.m.ticks();
        let wd = match r.below(10) {
            0..=6 => r.log(1, if sp > 10 { 20 } else { 60 }) * sp,
            7..=8 => r.log(1, 8) * sp,
            _ => r.log(1, if sp > 10 { 40 } else { 600 }) * sp,
        };
        let off = r.below(2 * wd / sp + 2) * sp;
        let mut lo = (base + wd).saturating_sub(off);
        if lo == 0 && r.chance(50) {
            lo = sp;
        }
        let mut hi = lo + r.log(1, 40) * sp;
        if !ts.is_empty() && r.chance(45) {
            lo = *r.pick(&ts);
            if hi <= lo {
                hi = lo + r.log(1, 40) * sp;
            }
        }
        if !ts.is_empty() && r.chance(35) {
            let h = *r.pick(&ts);
            if h > lo {
                hi = h;
            }
        }
        if r.chance(5) {
            // nearly everything
            lo = lo.saturating_sub(r.log(20, 2000) * sp) / sp * sp;
            hi += r.log(20, 2000) * sp;
            let most = if w.cfg.kind == Kind::Dec { w.cfg.tick0.max(43_000) + 2000 } else { 110_000 };
            if hi > most {
                hi = (most / sp * sp).max(lo + sp);
            }
        } else if r.chance(12) {
            lo = base + if r.chance(30) { sp } else { 0 };
            hi = lo + r.log(1, 20) * sp;
        } else if r.chance(10) && base > 2 * sp {
            hi = base;
            lo = base.saturating_sub(r.log(1, 20) * sp);
            if lo == hi {
                hi += sp;
            }
        }
        let frac = |r: &mut Rng| if r.chance(50) { r.below(E12 as u64) as u128 } else { 0 };
        let amt = |r: &mut Rng| {
            if r.chance(3) {
                0
            } else {
                r.log(least, scale) as u128 * E12
            }
        };
        let mine: Vec<Key> = w.m.pos.keys().filter(|k| k.0 == user).cloned().collect();
        if !mine.is_empty() && r.chance(12) {
            // more of the same, or nothing: then only what is owed is collected
            let k = *r.pick(&mine);
            lo = k.1;
            hi = k.2;
            if r.chance(30) {
                return Ev::Dep { u: user, x: 0, y: 0, lo, hi };
            }
        }
        Ev::Dep { u: user, x: amt(r) + frac(r), y: amt(r) + frac(r), lo, hi }
    };
    let wdr = |r: &mut Rng| -> Option<Ev> {
        let mine: Vec<Key> = w.m.pos.keys().filter(|k| k.0 == user).cloned().collect();
        let ks: Vec<Key> = if mine.is_empty() { w.m.pos.keys().cloned().collect() } else { mine };
        if ks.is_empty() {
            return None;
        }
        if r.chance(20) {
            // level out a tick that is the end of one range and the start of another
            let ts: Vec<u64> = w.m.ticks();
            let t = *r.pick(&ts);
            let up: u128 = w.m.pos.iter().filter(|(k, _)| k.1 == t).map(|(_, p)| p.raw).sum();
            let dn: u128 = w.m.pos.iter().filter(|(k, _)| k.2 == t).map(|(_, p)| p.raw).sum();
            if up > 0 && dn > 0 && up != dn {
                let need = up.max(dn) - up.min(dn);
                let c: Vec<Key> = w.m.pos.iter().filter(|(k, p)| (if up > dn { k.1 == t } else { k.2 == t }) && p.raw > need).map(|(k, _)| *k).collect();
                if !c.is_empty() {
                    let k = *r.pick(&c);
                    return Some(Ev::WdRaw { u: k.0, lo: k.1, hi: k.2, raw: need });
                }
            }
        }
        let k = *r.pick(&ks);
        if !dual && r.chance(10) {
            let held = w.m.pos[&k].raw;
            let most = if r.chance(70) { 1 << 36 } else { 1 << 46 };
            let left = r.log(1, most) as u128;
            if held > left {
                return Some(Ev::WdRaw { u: k.0, lo: k.1, hi: k.2, raw: held - left });
            }
        }
        let ppm = match r.below(5) {
            0 => 0,
            1 | 2 => 1_000_000,
            _ => r.range(1, if dual { 900_000 } else { 999_999 }),
        };
        Some(Ev::Wd { u: k.0, lo: k.1, hi: k.2, ppm })
    };
    let amount = |r: &mut Rng, down: bool| -> Amt {
        let ts = w.m.ticks();
        let mut cand: Vec<u64> = ts.into_iter().filter(|&t| if down { t <= view.tick } else { t > view.tick }).collect();
        if down {
            cand.reverse();
        }
        match r.below(20) {
            0..=4 if !cand.is_empty() => Amt::ToTick { t: cand[0], eps: r.range(0, 6) as i64 - 3 },
            5..=7 if !cand.is_empty() => Amt::ToTick { t: cand[r.idx(cand.len().min(4))], eps: r.range(0, 2000) as i64 - 1000 },
            8 => Amt::Raw(r.log(1, 1 << 50) as u128),
            9 if !view.liq.is_zero() && view.tick > 2 * sp => {
                // onto a tick where no range ends (yet)
                let k = r.below(3) * sp;
                let t = if down { base - k } else { base + sp + k };
                let fee = 1.0 - w.cfg.fee_ppm as f64 / 1e6;
                let net = guarded(|| E::reach(view, down, t)).unwrap_or(1 << 30) as f64;
                let v = if net / fee < 1e30 { (net / fee) as u128 } else { 1 };
                Amt::Raw((v + r.below(5) as u128).saturating_sub(2).max(1))
            }
            9..=14 => {
                // a chosen relative price move
                let l = view.liq.to_f64().max(1.0);
                let mv = 10f64.powi(-(r.range(1, 6) as i32)) * (r.range(1, 9) as f64);
                let rp = view.rp.to_f64();
                let v = if down { l * mv / rp } else { l * mv * rp };
                Amt::Raw(((v.min(1e13)) * 1e12) as u128 + r.below(1000) as u128 + 1)
            }
            _ => Amt::Raw(r.log(1, scale) as u128 * E12 + if r.chance(50) { r.below(E12 as u64) as u128 } else { 0 }),
        }
    };
    let tot = p.lp + p.swap + p.bad + p.fork + p.crash;
    let k = if w.m.pos.values().all(|q| q.raw == 0) { 0 } else { r.below(tot) };
    if k < p.lp {
        if r.chance(58) {
            dep(r)
        } else {
            wdr(r).unwrap_or_else(|| dep(r))
        }
    } else if k < p.lp + p.swap {
        let down = r.chance(50);
        Ev::Swap { down, amt: amount(r, down), orc }
    } else if k < p.lp + p.swap + p.bad {
        let ks: Vec<Key> = w.m.pos.keys().cloned().collect();
        let key = if ks.is_empty() { (user, base.max(sp), base.max(sp) + sp) } else { *r.pick(&ks) };
        Ev::Bad { kind: r.below(12) as u8, u: key.0, lo: key.1, hi: key.2, v: r.log(1, 1 << 40) as u128 }
    } else if k < p.lp + p.swap + p.bad + p.fork {
        match *r.pick(&p.forks) {
            0 => {
                let down = r.chance(50);
                let cuts = (0..r.range(1, 4)).map(|_| r.range(1, 5)).collect();
                Ev::Trip { down, amt: amount(r, down), orc, cuts }
            }
            1 => {
                let down = r.chance(50);
                Ev::Split { down, amt: amount(r, down), orc, ppm: r.range(1, 999_999) }
            }
            2 => {
                if let Ev::Dep { u, x, y, lo, hi } = dep(r) {
                    Ev::InOut { u, x, y, lo, hi }
                } else {
                    unreachable!()
                }
            }
            _ => {
                let a = if r.chance(60) { dep(r) } else { wdr(r).unwrap_or_else(|| dep(r)) };
                let b = if r.chance(40) { dep(r) } else { wdr(r).unwrap_or_else(|| dep(r)) };
                Ev::Commute { a: Box::new(a), b: Box::new(b) }
            }
        }
    } else {
        Ev::Crash { lose: if r.chance(50) { 0 } else { r.range(1, 3) as usize } }
    }
}

fn kind_name(e: &Ev) -> &'static str {
    match e {
        Ev::Dep { .. } => "d",
        Ev::Wd { .. } | Ev::WdRaw { .. } => "w",
        Ev::Swap { down: true, .. } => "x",
        Ev::Swap { .. } => "y",
        Ev::Bad { .. } => "b",
        Ev::Crash { .. } => "c",
        Ev::Trip { .. } => "t",
        Ev::Split { .. } => "s",
        Ev::InOut { .. } => "i",
        Ev::Commute { .. } => "m",
        Ev::Exit { .. } => "e",
    }
}

fn generate<E: Eng>(prop: &str, mut r: Rng, p: Prof, cfg: Cfg, dual: bool) -> Report<Trace> {
    let mut w: World<E> = World::new(&cfg, prop);
    let mut shadow = if dual { Some(Shadow::new(&cfg)) } else { None };
    let mut tr = Trace {
        float: cfg.kind == Kind::Flt,
        dual,
        tick0: cfg.tick0,
        spacing: cfg.spacing,
        c_pct: cfg.c_pct,
        fee_ppm: cfg.fee_ppm,
        steps: vec![],
    };
    let net = Net {
        drop: *r.pick(&[0, 0, 5, 15]),
        dup: *r.pick(&[0, 0, 5, 15]),
        delay_max: *r.pick(&[1, 50, 2000]),
        stale: *r.pick(&[0, 20, 60]),
    };
    let scale = if dual { r.log(1_000_000, 100_000_000) } else { r.log(10, 100_000_000) };
    let actors = r.range(2, 5) as usize;
    // message queue: (time, seq) -> (event, via)
    let mut q: BinaryHeap<Reverse<(u64, u64)>> = BinaryHeap::new();
    let mut pend: BTreeMap<u64, (Option<Ev>, String)> = BTreeMap::new();
    let mut seq = 0u64;
    let mut now = 0u64;
    let mut views: Vec<Obs> = vec![w.obs.clone(); actors];
    // oracle: a price process, published over the same network
    let mut true_tick = (cfg.tick0 as i64).max(60);
    let mut feed: u128 = 0;
    let mut feed_out_until = 0u64;
    let mut stall_until = 0u64;
    let mut delivered = 0u64;
    let mut order = String::new();
    let mut stop = |w: &World<E>, s: &Option<Shadow>| w.viol.is_some() || s.as_ref().map_or(false, |x| x.viol.is_some());
    while delivered < p.n && !stop(&w, &shadow) {
        // somebody wakes up
        now += r.log(1, 4000);
        let a = r.idx(actors);
        if r.chance(70) {
            let mv = match r.below(20) {
                0 => r.range(0, 400) as i64 - 200,
                1..=9 => (view_tick(&w) as i64 - true_tick) + r.range(0, 60) as i64 - 30,
                _ => r.range(0, 20) as i64 - 10,
            };
            if mv.abs() > 60 {
                w.st.hit("fault.oracle price jump");
            }
            true_tick = (true_tick + mv).max(2);
            if now < feed_out_until {
                w.st.hit("fault.oracle update lost");
            } else if r.chance(net.drop) {
                w.st.hit("fault.oracle update lost");
            } else {
                let t = w.tt(true_tick as u64).to_raw12_near();
                let ends = w.m.ticks();
                feed = match r.below(8) {
                    0 if cfg.kind == Kind::Flt => orc_float(w.obs.rp.to_f64()),
                    0 => w.obs.rp.to_raw12_near(),
                    6 => orc_at_tick((true_tick as u64) / cfg.spacing * cfg.spacing, *r.pick(&[0, 0, 1, 2])),
                    7 if !ends.is_empty() => orc_at_tick(*r.pick(&ends), *r.pick(&[0, 0, 0, 1, 2])),
                    1 => t + r.below(40_000_000) as u128,
                    2 => w.obs.rp.to_raw12_near() + r.below(20_000) as u128 - r.below(20_000).min(9_000) as u128,
                    _ => t,
                };
            }
        } else if r.chance(3) {
            w.st.hit("fault.oracle outage");
            feed = 0;
            feed_out_until = now + r.log(1000, 60_000);
        }
        let orc = if r.chance(p.oracle_near) { feed } else { 0 };
        if r.chance(net.stale) {
            w.st.hit("fault.request built on a stale view");
        } else {
            views[a] = w.obs.clone();
        }
        let ev = gen_ev(&w, &views[a], &mut r, &p, scale, orc, a);
        // network
        let d = r.log(1, net.delay_max);
        if d > 500 {
            w.st.hit("fault.message delayed");
        }
        if r.chance(net.drop) {
            w.st.hit("fault.message lost");
            if r.chance(70) {
                // the client's timeout fires and it sends again
                w.st.hit("fault.message retried after timeout");
                seq += 1;
                pend.insert(seq, (Some(ev.clone()), "retry".into()));
                q.push(Reverse((now + 3000 + d, seq)));
            }
        } else {
            seq += 1;
            pend.insert(seq, (Some(ev.clone()), String::new()));
            q.push(Reverse((now + d, seq)));
            if r.chance(net.dup) && !matches!(ev, Ev::Crash { .. }) {
                w.st.hit("fault.message duplicated");
                seq += 1;
                pend.insert(seq, (Some(ev), "duplicate".into()));
                q.push(Reverse((now + d + r.log(1, 3000), seq)));
            }
        }
        if r.permille(15) {
            w.st.hit("fault.server stalled");
            stall_until = now + r.log(1000, 20_000);
        }
        // deliver what is due
        let mut last_seq = 0;
        while let Some(&Reverse((t, s))) = q.peek() {
            if t > now || now < stall_until || delivered >= p.n || stop(&w, &shadow) {
                break;
            }
            q.pop();
            let (ev, via) = pend.remove(&s).unwrap();
            if s < last_seq {
                w.st.hit("fault.message reordered");
            }
            last_seq = last_seq.max(s);
            let ev = ev.unwrap();
            order.push_str(kind_name(&ev));
            if !via.is_empty() {
                order.push('*');
            }
            tr.steps.push(Step { t, via, ev: ev.clone() });
            w.exec(tr.steps.len() - 1, &ev);
            if let Some(s) = shadow.as_mut() {
                s.follow(&w, tr.steps.len() - 1, &ev);
            }
            delivered += 1;
        }
    }
    if !stop(&w, &shadow) && prop != "E14" {
        let ev = Ev::Exit { order: r.u64() };
        tr.steps.push(Step { t: now, via: "faults stopped".into(), ev: ev.clone() });
        w.exec(tr.steps.len() - 1, &ev);
    }
    let _ = &mut stop;
    finish(w, shadow, tr, now, order)
}
fn view_tick<E: Eng>(w: &World<E>) -> u64 {
    w.obs.tick
}

fn finish<E: Eng>(mut w: World<E>, shadow: Option<Shadow>, tr: Trace, now: u64, order: String) -> Report<Trace> {
    w.st.add("clock reads by the code under test", crate::harness::clock_reads());
    w.st.sim_ms = now;
    let ok = w.recs.len();
    if ok >= 4 && order.len() >= 5 {
        w.st.orders.insert(hash_str(&format!("{}|{:?}", order, (tr.float, tr.tick0, tr.spacing, tr.c_pct, tr.fee_ppm))));
    }
    let mut viol = w.viol;
    if let Some(s) = shadow {
        w.st.merge(s.st);
        if viol.is_none() {
            viol = s.viol;
        }
    }
    Report { viol, foreign: w.foreign, trace: tr, stats: w.st, log: w.log }
}

fn replay_trace<E: Eng>(prop: &str, t: &Trace) -> Report<Trace> {
    let cfg = t.cfg();
    let mut w: World<E> = World::new(&cfg, prop);
    let mut shadow = if t.dual { Some(Shadow::new(&cfg)) } else { None };
    for (i, s) in t.steps.iter().enumerate() {
        if w.viol.is_some() || shadow.as_ref().map_or(false, |x| x.viol.is_some()) {
            break;
        }
        w.exec(i, &s.ev);
        if let Some(x) = shadow.as_mut() {
            x.follow(&w, i, &s.ev);
        }
    }
    finish(w, shadow, t.clone(), 0, String::new())
}

// ------------------------------------------------------------------ the two engines side by side
struct Shadow {
    w: World<FltEng>,
    viol: Option<Violation>,
    st: Stats,
    off: bool,
    n: usize,
    drift: f64,
    peak: f64,
    taken: [f64; 4], // fees and adjustments withheld so far
    far: f64,        // farthest oracle reading, relative to the price
}
impl Shadow {
    fn new(cfg: &Cfg) -> Shadow {
        let c = Cfg { kind: Kind::Flt, ..cfg.clone() };
        Shadow { w: World::new(&c, ""), viol: None, st: Stats::default(), off: false, n: 0, drift: 1e-9 + cfg.tick0 as f64 * 2e-12, peak: 0.0, taken: [0.0; 4], far: 0.0 }
    }
    fn follow<E: Eng>(&mut self, main: &World<E>, at: usize, ev: &Ev) {
        if self.off {
            return;
        }
        let accepted = main.recs.len();
        let took = accepted > self.n;
        match ev {
            Ev::Crash { lose } => {
                self.w.exec(at, &Ev::Crash { lose: *lose });
                self.n = main.recs.len();
                if self.w.recs.len() != self.n {
                    self.off = true;
                }
                return;
            }
            Ev::Dep { .. } | Ev::Wd { .. } | Ev::WdRaw { .. } => {
                if !took {
                    return;
                }
                let n0 = self.w.recs.len();
                if let Ev::Dep { x, y, lo, hi, .. } = ev {
                    // the liquidity of a narrow side magnifies the last digits of a price
                    let (a, b, p) = (main.tt(*lo), main.tt(*hi), main.obs.rp);
                    let (a2, b2, p2) = (self.w.tt(*lo), self.w.tt(*hi), self.w.obs.rp);
                    let err = ((a - a2).abs() + (b - b2).abs() + (p - p2).abs()).to_f64() + 1e-12;
                    let mut narrow = (b - a).to_f64();
                    let inside = p > a && p < b;
                    if inside {
                        // (of the side that decides)
                        let (up, dn) = ((b - p).to_f64(), (p - a).to_f64());
                        let (lx, ly) = (*x as f64 * (p * b).to_f64() / up, *y as f64 / dn);
                        narrow = if lx * 1.01 < ly {
                            up
                        } else if ly * 1.01 < lx {
                            dn
                        } else {
                            up.min(dn)
                        };
                    }
                    if inside != (p2 > a2 && p2 < b2) {
                        // the engines' last digits put the price on different sides of a range end
                        self.st.hit("exempt.engines: boundary decided by rounding");
                        self.off = true;
                        return;
                    }
                    self.drift += 4.0 * err / narrow;
                    // the float engine credits whole units only
                    let l = main.m.pos.values().map(|p| p.raw as f64 / 1e12).fold(f64::MAX, f64::min).max(1.0);
                    self.drift += 2.0 / l;
                }
                // a remainder that is mostly the fraction only one of them credits says nothing
                let small = main.m.pos.values().map(|p| p.raw as f64 / 1e12).fold(f64::MAX, f64::min) < 2e4;
                let more = match ev {
                    Ev::WdRaw { u, lo, hi, raw } => self.w.m.pos.get(&(*u, *lo, *hi)).map_or(true, |p| *raw > p.raw),
                    _ => false,
                };
                if small || more {
                    self.st.hit(if small { "exempt.engines: liquidity too small to compare" } else { "exempt.engines: remainder only one engine credits" });
                    self.off = true;
                    return;
                }
                self.w.exec(at, ev);
                if self.w.recs.len() == n0 {
                    self.fail(at, "only one engine accepts", format!("{:?}", ev));
                    return;
                }
            }
            Ev::Swap { down, orc, .. } => {
                if !took {
                    return;
                }
                let amt = match main.recs.last().map(|r| r.j.clone()) {
                    Some(J::S(_, a, _)) => a as u128,
                    _ => return,
                };
                let r = {
                    let tf = |t: u64| self.w.tt(t);
                    self.w.m.swap(*down, Dd::raw12(amt, false), FltEng::oracle(*orc), &TickTable(&tf))
                };
                let pre = self.w.obs.rp.to_f64();
                let n0 = self.w.recs.len();
                let e = Ev::Swap { down: *down, amt: Amt::Raw(amt), orc: *orc };
                self.w.exec(at, &e);
                if self.w.recs.len() == n0 {
                    // refusals of dust-sized trades differ between number formats
                    self.st.hit("exempt.engines: dust trade");
                    self.off = true;
                    return;
                }
                self.taken[if *down { 0 } else { 1 }] += r.fee.to_f64();
                self.taken[if *down { 3 } else { 2 }] += r.adj.to_f64();
                if *orc != 0 && main.cfg.c_pct > 0 {
                    let o = FltEng::oracle(*orc).to_f64();
                    for p in [pre, main.obs.rp.to_f64()] {
                        self.far = self.far.max((p / o).max(o / p) - 1.0);
                    }
                }
            }
            _ => return,
        }
        self.n = accepted;
        self.compare(main, at, ev);
    }
    fn fail(&mut self, at: usize, class: &str, d: String) {
        if self.viol.is_none() {
            self.viol = Some(Violation { tag: "E14".into(), class: class.into(), detail: format!("{}: {}", class, d), at_event: at });
        }
    }
    fn compare<E: Eng>(&mut self, main: &World<E>, at: usize, ev: &Ev) {
        let (a, b) = (main.obs.clone(), self.w.obs.clone());
        let near_boundary = main.m.ticks().iter().any(|t| ((a.rp - main.tt(*t)).to_f64() / a.rp.to_f64()).abs() < self.drift.max(1e-9) * 10.0);
        if a.tick != b.tick && (near_boundary || ((a.rp - b.rp).to_f64() / a.rp.to_f64()).abs() < self.drift * 10.0) {
            self.st.hit("exempt.engines: boundary decided by rounding");
            if a.ticks.iter().any(|t| (*t > a.tick.min(b.tick)) && (*t <= a.tick.max(b.tick))) {
                self.off = true;
                return;
            }
        }
        if self.drift > 1e-4 {
            self.st.hit("exempt.engines: accumulated rounding");
            self.off = true;
            return;
        }
        self.st.hit("chk.engines agree");
        let lt: f64 = main.m.pos.values().map(|p| p.raw as f64 / 1e12).sum::<f64>() + 1.0;
        self.peak = self.peak.max(lt);
        let lt = self.peak;
        let rp = a.rp.to_f64();
        let d = self.drift;
        let mut bad: Option<String> = None;
        let mut ck = |n: &str, p: Dd, q: Dd, t: f64, st: &mut Stats| {
            let e = (p - q).to_f64().abs();
            st.max(&format!("engines: {}", n), e / t);
            if !(e <= t) && bad.is_none() {
                bad = Some(format!("{}: fixed-point {} float {} (tolerance {:.2e})", n, p, q, t));
            }
        };
        ck("root price", a.rp, b.rp, rp * d * 4.0 + 1e-10, &mut self.st);
        ck("liquidity", a.liq, b.liq, lt * d + 2.0 * main.m.pos.len() as f64, &mut self.st);
        ck("X reserve", a.x, b.x, lt / rp * d * 4.0 + lt * 1e-10, &mut self.st);
        ck("Y reserve", a.y, b.y, lt * rp * d * 4.0 + lt * 1e-10, &mut self.st);
        for i in 0..4 {
            let s = if i % 2 == 0 { lt / rp } else { lt * rp };
            // fees follow the volume, adjustments the distance to the oracle price
            let fr = main.cfg.fee_ppm as f64 / 1e6;
            let by = if i < 2 { fr / (1.0 - fr) } else { 2.0 * self.far * (1.0 + self.far) + d };
            ck(POT[i], pots(&a)[i], pots(&b)[i], 4.0 * d * (self.taken[i] + s * by) + lt * 1e-10, &mut self.st);
        }
        if let Some(m) = bad {
            self.fail(at, "the engines disagree", format!("after {:?}: {}", ev, m));
        }
    }
}

// ------------------------------------------------------------------ Sim
pub struct EngineSim;
impl Sim for EngineSim {
    type Trace = Trace;
    const SYSTEM: &'static str = "engine";
    fn run(prop: &str, seed: u64, deep: bool) -> Report<Trace> {
        let mut r = Rng::new(seed);
        let mut p = profile(prop, &mut r, deep);
        let mut cfg = gen_cfg(prop, &mut r, &p);
        if cfg.kind == Kind::Dec && seed % 300 == 7 {
            // far out, where the fixed-point engine takes long to find its ticks
            cfg.tick0 = if r.chance(50) { 65536 - 40 + r.below(60) } else { r.range(45_000, 90_000) };
            p.n = p.n.min(r.range(6, 14));
        }
        match cfg.kind {
            Kind::Dec => generate::<DecEng>(prop, r, p, cfg, prop == "E14"),
            Kind::Flt => generate::<FltEng>(prop, r, p, cfg, false),
        }
    }
    fn replay(prop: &str, t: &Trace) -> Report<Trace> {
        if t.float {
            replay_trace::<FltEng>(prop, t)
        } else {
            replay_trace::<DecEng>(prop, t)
        }
    }
    fn len(t: &Trace) -> usize {
        t.steps.len()
    }
    fn without(t: &Trace, a: usize, b: usize) -> Trace {
        let mut n = t.clone();
        n.steps.drain(a..b);
        n
    }
    fn simpler(t: &Trace, i: usize) -> Vec<Trace> {
        let mut v = vec![];
        let mut put = |ev: Ev| {
            if ev != t.steps[i].ev {
                let mut n = t.clone();
                n.steps[i].ev = ev;
                n.steps[i].via = String::new();
                v.push(n);
            }
        };
        fn cut(x: u128) -> Vec<u128> {
            let e = E12;
            let mut v = vec![];
            if x >= e && x % e != 0 {
                v.push(x / e * e);
            }
            if x > e {
                v.push(x / 2 / e * e);
                v.push(x / 10 / e * e);
            }
            v.retain(|y| *y < x && *y > 0);
            v
        }
        match t.steps[i].ev.clone() {
            Ev::Dep { u, x, y, lo, hi } => {
                for x2 in cut(x) {
                    put(Ev::Dep { u, x: x2, y, lo, hi });
                }
                for y2 in cut(y) {
                    put(Ev::Dep { u, x, y: y2, lo, hi });
                }
            }
            Ev::Wd { u, lo, hi, ppm } => {
                for q in [1_000_000, 500_000, 0] {
                    if q != ppm && ppm % 500_000 != 0 {
                        put(Ev::Wd { u, lo, hi, ppm: q });
                    }
                }
            }
            Ev::Swap { down, amt, orc } => {
                if orc != 0 {
                    put(Ev::Swap { down, amt: amt.clone(), orc: 0 });
                }
                match amt {
                    Amt::Raw(x) => {
                        for y in cut(x) {
                            put(Ev::Swap { down, amt: Amt::Raw(y), orc });
                        }
                    }
                    Amt::ToTick { t: tk, eps } => {
                        if eps != 0 {
                            put(Ev::Swap { down, amt: Amt::ToTick { t: tk, eps: 0 }, orc });
                        }
                    }
                }
            }
            Ev::Trip { down, amt, orc, cuts } => {
                if orc != 0 {
                    put(Ev::Trip { down, amt: amt.clone(), orc: 0, cuts: cuts.clone() });
                }
                if cuts.len() > 1 {
                    put(Ev::Trip { down, amt: amt.clone(), orc, cuts: vec![1] });
                }
                if let Amt::Raw(x) = amt {
                    for y in cut(x) {
                        put(Ev::Trip { down, amt: Amt::Raw(y), orc, cuts: cuts.clone() });
                    }
                }
            }
            Ev::Split { down, amt, orc, ppm } => {
                if orc != 0 {
                    put(Ev::Split { down, amt: amt.clone(), orc: 0, ppm });
                }
                if ppm != 500_000 {
                    put(Ev::Split { down, amt: amt.clone(), orc, ppm: 500_000 });
                }
                if let Amt::Raw(x) = amt {
                    for y in cut(x) {
                        put(Ev::Split { down, amt: Amt::Raw(y), orc, ppm });
                    }
                }
            }
            Ev::WdRaw { u, lo, hi, raw } => {
                put(Ev::Wd { u, lo, hi, ppm: 1_000_000 });
                for x in cut(raw) {
                    put(Ev::WdRaw { u, lo, hi, raw: x });
                }
            }
            _ => {}
        }
        v
    }
    fn describe(t: &Trace, i: usize) -> String {
        let s = &t.steps[i];
        format!("t={}ms {:?}{}", s.t, s.ev, if s.via.is_empty() { String::new() } else { format!(" ({})", s.via) })
    }
    fn components() -> serde_json::Value {
        serde_json::json!({
            "real": ["cl_pool::Pool", "cl_pool_float::Pool", "cl_pool::cl_math", "cl_pool_float::cl_math", "decimal::Decimal"],
            "simulated": ["network", "clients (providers, traders)", "oracle feed", "virtual clock", "journal", "hash-map seeds (getrandom)", "std::time clocks (clock_gettime)"],
        })
    }
    fn assumptions() -> Vec<String> {
        vec![
            "a panic of the engine is a refused request: the service discards the transaction and recovers from its journal".into(),
            "liquidity is credited as the engine's public liquidity formula says; that this matches the amounts taken is checked".into(),
        ]
    }
    fn rule() -> String {
        "one evaluation is one simulated run (a seed): pool configuration, network, oracle and workload are drawn from the seed. A run is non-trivial when at least four operations were accepted; runs are distinct when the delivered event order or the pool configuration differs".into()
    }
}
