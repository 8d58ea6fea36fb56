//! Executable reference model of a concentrated-liquidity pool: per-position bookkeeping, no
//! fee-growth accumulators, no tick bookkeeping; double-double arithmetic.
use crate::dd::Dd;
use crate::engine::{Cfg, Kind};
use std::collections::BTreeMap;

pub type Key = (usize, u64, u64);

#[derive(Clone, Debug)]
pub struct Pos {
    pub raw: u128, // credited liquidity, 1e-12 units
    pub owed: [Dd; 4],    // x fee, y fee, x adj, y adj
    pub slack: [Dd; 4],   // rounding slack of each
}
impl Pos {
    pub fn liq(&self) -> Dd {
        Dd::raw12(self.raw, false)
    }
}

#[derive(Clone, Debug)]
pub struct Model {
    pub cfg: Cfg,
    pub rp: Dd,
    pub tick: u64,
    pub pos: BTreeMap<Key, Pos>,
    pub ulp: f64, // absolute quantum of the engine's number type around 1.0 (1e-12 or 2e-16)
}

#[derive(Clone, Debug, Default)]
pub struct Seg {
    pub liq: Dd,
    pub rp0: Dd,
    pub rp1: Dd,
    pub net: Dd,
    pub fee: Dd,
    pub out_plain: Dd, // positive
    pub out_adj: Dd,   // positive adjustment withheld
    pub crossed: bool,
    pub members: Vec<Key>,
}

#[derive(Clone, Debug, Default)]
pub struct SwapRef {
    pub segs: Vec<Seg>,
    pub recv: Dd,
    pub fee: Dd,
    pub out: Dd, // positive, after adjustment
    pub adj: Dd,
    pub rp: Dd,
    pub filled: bool,
    pub ambiguous: bool, // a boundary decision within rounding noise
    pub gaps: usize,
    pub hmm_segs: usize,
    pub maxl: Dd,
    pub nx: f64, // rounding noise of the engine's X / Y amounts
    pub ny: f64,
    pub nh: f64, // extra noise of the adjusted output amount
    pub min_step: f64, // smallest relative root-price move of a segment
    pub below_zero: bool,
}

pub struct TickTable<'a>(pub &'a dyn Fn(u64) -> Dd);

/// Integral of the HMM price curve between two root prices: Y given out (X in).
pub fn hmm_dy(l: Dd, a: Dd, b: Dd, c_pct: u64, o: Dd) -> Dd {
    // a > b ; magnitude. price along curve: plain dy = l d(rp); adjusted by (o/rp)^c
    if c_pct == 100 {
        l * o * (a / b).ln()
    } else {
        let c = Dd::f(c_pct as f64) / Dd::f(100.0);
        let omc = Dd::ONE - c;
        l * o.powf(c) * (a.powf(omc) - b.powf(omc)) / omc
    }
}
/// X given out (Y in), a < b; magnitude.
pub fn hmm_dx(l: Dd, a: Dd, b: Dd, c_pct: u64, o: Dd) -> Dd {
    if c_pct == 100 {
        l / o * (b / a).ln()
    } else {
        let c = Dd::f(c_pct as f64) / Dd::f(100.0);
        let omc = Dd::ONE - c;
        // plain: l d(1/rp) ; with u = 1/rp: l * (1/o)^c * u^{-c} du
        let (ua, ub) = (Dd::ONE / a, Dd::ONE / b);
        l * (Dd::ONE / o).powf(c) * (ua.powf(omc) - ub.powf(omc)) / omc
    }
}

/// Accuracy of the engines' logarithms and powers in the adjusted curve.
pub fn hmm_noise(k: Kind, l: f64, a: f64, b: f64, o: f64, c_pct: u64, down: bool) -> f64 {
    let s = if down { l * o.max(1.0) } else { l / o.min(1.0) };
    match k {
        // the last digits cut off by each product and division in turn, however little liquidity
        Kind::Dec if c_pct == 100 => s * 2e-10 + 1e-12 * (2.0 + (b / a).ln().abs()),
        Kind::Dec => {
            let m = (c_pct as f64 / 100.0 - 1.0).abs().max(1e-3);
            let d = if down { (b.powf(-m) - a.powf(-m)).abs() } else { (b.powf(m) - a.powf(m)).abs() };
            s * 2e-10 + 1e-12 * (2.0 + (2.0 + d) / m)
        }
        Kind::Flt => s * 2e-13,
    }
}

impl Model {
    pub fn new(cfg: &Cfg, rp: Dd, tick: u64, ulp: f64) -> Model {
        Model { cfg: cfg.clone(), rp, tick, pos: BTreeMap::new(), ulp }
    }
    pub fn fee_rate(&self) -> Dd {
        Dd::f(self.cfg.fee_ppm as f64) / Dd::f(1e6)
    }
    pub fn snap(&self, t: u64) -> u64 {
        t / self.cfg.spacing * self.cfg.spacing
    }
    pub fn in_range(&self, k: &Key, tick: u64) -> bool {
        k.1 <= tick && tick < k.2
    }
    pub fn liq_raw_at(&self, tick: u64) -> u128 {
        self.pos.iter().filter(|(k, _)| self.in_range(k, tick)).map(|(_, p)| p.raw).sum()
    }
    pub fn liq_at(&self, tick: u64) -> Dd {
        Dd::raw12(self.liq_raw_at(tick), false)
    }
    /// Range ends of positions that hold liquidity.
    pub fn ticks(&self) -> Vec<u64> {
        let mut v: Vec<u64> =
            self.pos.iter().filter(|(_, p)| p.raw > 0).flat_map(|(k, _)| [k.1, k.2]).collect();
        v.sort();
        v.dedup();
        v
    }
    /// Closed-form holdings of liquidity `l` over [pa,pb] at price rp.
    pub fn amounts(l: Dd, rp: Dd, pa: Dd, pb: Dd) -> (Dd, Dd) {
        let p = rp.max(pa).min(pb);
        (l * (Dd::ONE / p - Dd::ONE / pb), l * (p - pa))
    }
    pub fn liq_for(&self, x: Dd, y: Dd, pa: Dd, pb: Dd) -> Dd {
        let rp = self.rp;
        if rp <= pa {
            x / (Dd::ONE / pa - Dd::ONE / pb)
        } else if rp < pb {
            (x / (Dd::ONE / rp - Dd::ONE / pb)).min(y / (rp - pa))
        } else {
            y / (pb - pa)
        }
    }
    /// Total token claims of all positions at the current price.
    pub fn owed_tokens(&self, tt: &TickTable) -> (Dd, Dd) {
        let (mut x, mut y) = (Dd::ZERO, Dd::ZERO);
        for (k, p) in &self.pos {
            let (a, b) = Model::amounts(p.liq(), self.rp, (tt.0)(k.1), (tt.0)(k.2));
            x += a;
            y += b;
        }
        (x, y)
    }
    /// Reference execution of a swap from the current state; does not modify self.
    /// `down`: X in (price falls).
    pub fn swap(&self, down: bool, amt: Dd, oracle: Dd, tt: &TickTable) -> SwapRef {
        let mut r = SwapRef { rp: self.rp, ..Default::default() };
        let mut rp = self.rp;
        let mut tick = self.tick as i64;
        let f = self.fee_rate();
        let ff = Dd::ONE - f;
        let ticks = self.ticks();
        let mut rem = amt;
        let sp = self.cfg.spacing as i64;
        let u = self.ulp;
        loop {
            if rem <= Dd::ZERO {
                r.filled = true;
                break;
            }
            let liq = if tick < 0 { Dd::ZERO } else { self.liq_at(tick as u64) };
            if liq.is_zero() {
                // jump the gap to the next boundary in the direction of travel
                let nxt = if down {
                    ticks.iter().rev().find(|&&t| (t as i64) <= tick).copied()
                } else {
                    ticks.iter().find(|&&t| (t as i64) > tick).copied()
                };
                match nxt {
                    None => {
                        break;
                    }
                    Some(t) => {
                        r.gaps += 1;
                        rp = (tt.0)(t);
                        tick = if down { t as i64 - sp } else { t as i64 };
                        if tick < 0 {
                            r.below_zero = true;
                        }
                        continue;
                    }
                }
            }
            r.maxl = r.maxl.max(liq);
            let goal = if down {
                ticks.iter().rev().find(|&&t| (t as i64) <= tick).copied()
            } else {
                ticks.iter().find(|&&t| (t as i64) > tick).copied()
            };
            let goal = match goal {
                None => break,
                Some(g) => g,
            };
            let rpg = (tt.0)(goal);
            let doable = if down { liq * (Dd::ONE / rpg - Dd::ONE / rp) } else { liq * (rpg - rp) };
            let doable = doable.max(Dd::ZERO);
            let maxnet = rem * ff;
            // decision noise: a few quanta of the price times the liquidity
            let (lf, rf, gf, mf) = (liq.to_f64(), rp.to_f64(), rpg.to_f64(), maxnet.to_f64());
            let noise = if self.cfg.kind == Kind::Dec {
                u * 4.0 * (2.0 + mf + if down { lf / (rf * gf) } else { lf })
            } else {
                u * 8.0 * (if down { lf / gf.min(rf) } else { lf * gf }) + mf * 4e-12
            };
            // what earlier segments really took carries their rounding
            let noise = noise + if down { r.nx } else { r.ny } * 2.0;
            if (doable - maxnet).abs().to_f64() <= noise {
                r.ambiguous = true;
            }
            let mut seg = Seg { liq, rp0: rp, ..Default::default() };
            let cross = doable < maxnet;
            if cross {
                seg.net = doable;
                seg.fee = doable / ff * f;
                seg.rp1 = rpg;
            } else {
                seg.net = maxnet;
                seg.fee = rem - maxnet;
                seg.rp1 = if down {
                    Dd::ONE / (Dd::ONE / rp + maxnet / liq)
                } else {
                    rp + maxnet / liq
                };
            }
            seg.crossed = cross;
            seg.members = self
                .pos
                .keys()
                .filter(|k| tick >= 0 && self.in_range(k, tick as u64))
                .cloned()
                .collect();
            let c = self.cfg.c_pct;
            let (a, b) = (seg.rp0, seg.rp1);
            if down {
                seg.out_plain = liq * (a - b).max(Dd::ZERO);
                if c != 0 && !oracle.is_zero() && oracle < a && a > b {
                    let stop = oracle.max(b);
                    let h = hmm_dy(liq, a, stop, c, oracle) + liq * (stop - b);
                    seg.out_adj = seg.out_plain - h;
                    r.hmm_segs += 1;
                }
            } else {
                seg.out_plain = liq * (Dd::ONE / a - Dd::ONE / b).max(Dd::ZERO);
                if c != 0 && !oracle.is_zero() && oracle > a && b > a {
                    let stop = oracle.min(b);
                    let h = hmm_dx(liq, a, stop, c, oracle) + liq * (Dd::ONE / stop - Dd::ONE / b);
                    seg.out_adj = seg.out_plain - h;
                    r.hmm_segs += 1;
                }
            }
            {
                let (af, bf) = (a.to_f64(), b.to_f64());
                let (xin, yin) = if down { (seg.net, seg.out_plain) } else { (seg.out_plain, seg.net) };
                let (xf, yf) = (xin.to_f64(), yin.to_f64());
                let m = af.min(bf);
                // what the fee adds on top of the net amount carries the net amount's rounding along
                let g = 1.0 / (1.0 - self.cfg.fee_ppm as f64 / 1e6);
                let (gx, gy) = if down { (g, 1.0) } else { (1.0, g) };
                if self.cfg.kind == Kind::Dec {
                    r.nx += gx * u * (4.0 + 2.0 * xf + 2.0 * xf / (af * bf) + 2.0 * lf / (m * m) + 1.0 / (m * m));
                    r.ny += gy * u * (4.0 + 2.0 * yf + 2.0 * lf + af.max(bf) * af.max(bf));
                } else {
                    r.nx += gx * u * 12.0 * lf / m + xf * 3e-12;
                    r.ny += gy * u * 12.0 * lf * af.max(bf) + yf * 3e-12;
                }
                let st = ((af - bf) / af).abs();
                if r.segs.is_empty() || st < r.min_step {
                    r.min_step = st;
                }
                if !seg.out_adj.is_zero() || (c != 0 && !oracle.is_zero()) {
                    r.nh += hmm_noise(self.cfg.kind, lf, af, bf, oracle.to_f64(), c, down);
                }
            }
            rem = rem - seg.net - seg.fee;
            r.recv += seg.net + seg.fee;
            r.fee += seg.fee;
            r.out += seg.out_plain - seg.out_adj;
            r.adj += seg.out_adj;
            rp = seg.rp1;
            let done = !cross;
            r.segs.push(seg);
            if cross {
                tick = if down { goal as i64 - sp } else { goal as i64 };
                if tick < 0 {
                    r.below_zero = true;
                }
            }
            r.rp = rp;
            if done {
                r.filled = true;
                break;
            }
        }
        if r.ambiguous {
            // dust may have traded against whoever is beyond the boundary, at that liquidity's rounding
            let mut t = tick;
            loop {
                let nxt = if down {
                    ticks.iter().rev().find(|&&x| (x as i64) <= t).copied()
                } else {
                    ticks.iter().find(|&&x| (x as i64) > t).copied()
                };
                let Some(b) = nxt else { break };
                t = if down { b as i64 - sp } else { b as i64 };
                let lf = if t < 0 { 0.0 } else { self.liq_at(t as u64).to_f64() };
                if lf > 0.0 {
                    let m = (tt.0)(b).to_f64();
                    let k = if self.cfg.kind == Kind::Dec { 2.0 } else { 12.0 };
                    r.nx += k * u * lf / m;
                    r.ny += k * u * lf * m;
                    break;
                }
            }
        }
        r
    }
}
