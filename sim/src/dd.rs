//! Double-double arithmetic (~31 significant digits). The reference models compute in this
//! arithmetic, which is independent of the 12-digit decimals and of the f64 code under test.
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Div, Mul, Neg, Sub, SubAssign};

#[derive(Clone, Copy, Debug, Default)]
pub struct Dd {
    pub hi: f64,
    pub lo: f64,
}

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    (p, a.mul_add(b, -p))
}

impl Dd {
    pub const ZERO: Dd = Dd { hi: 0.0, lo: 0.0 };
    pub const ONE: Dd = Dd { hi: 1.0, lo: 0.0 };
    pub fn f(x: f64) -> Dd {
        Dd { hi: x, lo: 0.0 }
    }
    pub fn from_u128(v: u128) -> Dd {
        // split in two exactly representable halves
        let h = (v >> 52) as f64 * 4503599627370496.0;
        let top = v >> 52;
        // `top` may itself exceed 53 bits: split again
        let t_hi = (top >> 40) as f64 * 1099511627776.0;
        let t_lo = (top & ((1 << 40) - 1)) as f64;
        let l = (v & ((1 << 52) - 1)) as f64;
        let _ = h;
        Dd::f(t_hi) * Dd::f(4503599627370496.0) + Dd::f(t_lo) * Dd::f(4503599627370496.0) + Dd::f(l)
    }
    /// A fixed-point value with 12 decimals.
    pub fn raw12(v: u128, neg: bool) -> Dd {
        let r = Dd::from_u128(v) / Dd::f(1e12);
        if neg {
            -r
        } else {
            r
        }
    }
    /// Truncation to a 12-decimal fixed-point value (0 when negative).
    pub fn to_raw12(self) -> u128 {
        if self.hi <= 0.0 {
            return 0;
        }
        let v = self * Dd::f(1e12);
        let h = v.hi.floor();
        let mut r = h as i128;
        r = r.saturating_add(((v.hi - h) + v.lo).floor() as i128);
        if r < 0 {
            0
        } else {
            r as u128
        }
    }
    /// Nearest 12-decimal fixed-point value (0 when negative).
    pub fn to_raw12_near(self) -> u128 {
        (self + Dd::f(5e-13)).to_raw12()
    }
    pub fn abs(self) -> Dd {
        if self.hi < 0.0 {
            -self
        } else {
            self
        }
    }
    pub fn max(self, o: Dd) -> Dd {
        if self < o {
            o
        } else {
            self
        }
    }
    pub fn min(self, o: Dd) -> Dd {
        if o < self {
            o
        } else {
            self
        }
    }
    pub fn is_zero(self) -> bool {
        self.hi == 0.0 && self.lo == 0.0
    }
    pub fn sqrt(self) -> Dd {
        if self.hi <= 0.0 {
            return Dd::ZERO;
        }
        let mut x = Dd::f(self.hi.sqrt());
        for _ in 0..2 {
            x = (x + self / x) * Dd::f(0.5);
        }
        x
    }
    pub fn powi(self, mut n: u64) -> Dd {
        let mut b = self;
        let mut r = Dd::ONE;
        while n > 0 {
            if n & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            n >>= 1;
        }
        r
    }
    pub fn exp(self) -> Dd {
        // scale down by 2^10, Taylor, square back
        let k = 1024.0;
        let r = self / Dd::f(k);
        let mut term = Dd::ONE;
        let mut sum = Dd::ONE;
        for i in 1..20 {
            term = term * r / Dd::f(i as f64);
            sum = sum + term;
        }
        for _ in 0..10 {
            sum = sum * sum;
        }
        sum
    }
    pub fn ln(self) -> Dd {
        let mut x = Dd::f(self.hi.ln());
        for _ in 0..2 {
            let e = (-x).exp();
            x = x + self * e - Dd::ONE;
        }
        x
    }
    /// self^p for real p, self > 0.
    pub fn powf(self, p: Dd) -> Dd {
        (self.ln() * p).exp()
    }
    pub fn to_f64(self) -> f64 {
        self.hi + self.lo
    }
}

impl Add for Dd {
    type Output = Dd;
    fn add(self, o: Dd) -> Dd {
        let (s, e) = two_sum(self.hi, o.hi);
        let (t, f) = two_sum(self.lo, o.lo);
        let (s, e) = quick_two_sum(s, e + t);
        let (s, e) = quick_two_sum(s, e + f);
        Dd { hi: s, lo: e }
    }
}
impl Neg for Dd {
    type Output = Dd;
    fn neg(self) -> Dd {
        Dd { hi: -self.hi, lo: -self.lo }
    }
}
impl Sub for Dd {
    type Output = Dd;
    fn sub(self, o: Dd) -> Dd {
        self + (-o)
    }
}
impl Mul for Dd {
    type Output = Dd;
    fn mul(self, o: Dd) -> Dd {
        let (p, e) = two_prod(self.hi, o.hi);
        let e = e + (self.hi * o.lo + self.lo * o.hi);
        let (p, e) = quick_two_sum(p, e);
        Dd { hi: p, lo: e }
    }
}
impl Div for Dd {
    type Output = Dd;
    fn div(self, o: Dd) -> Dd {
        let q1 = self.hi / o.hi;
        let r = self - o * Dd::f(q1);
        let q2 = r.hi / o.hi;
        let r = r - o * Dd::f(q2);
        let q3 = r.hi / o.hi;
        let (a, b) = quick_two_sum(q1, q2);
        Dd { hi: a, lo: b } + Dd::f(q3)
    }
}
impl AddAssign for Dd {
    fn add_assign(&mut self, o: Dd) {
        *self = *self + o;
    }
}
impl SubAssign for Dd {
    fn sub_assign(&mut self, o: Dd) {
        *self = *self - o;
    }
}
impl PartialEq for Dd {
    fn eq(&self, o: &Dd) -> bool {
        self.hi == o.hi && self.lo == o.lo
    }
}
impl PartialOrd for Dd {
    fn partial_cmp(&self, o: &Dd) -> Option<Ordering> {
        match self.hi.partial_cmp(&o.hi) {
            Some(Ordering::Equal) => self.lo.partial_cmp(&o.lo),
            x => x,
        }
    }
}
impl std::fmt::Display for Dd {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let neg = self.hi < 0.0;
        let a = self.abs();
        let ip = a.hi.floor();
        if ip < 1e15 && a.hi.is_finite() {
            let raw = a.to_raw12();
            write!(f, "{}{}.{:012}", if neg { "-" } else { "" }, raw / 1_000_000_000_000, raw % 1_000_000_000_000)
        } else {
            write!(f, "{:e}", self.hi)
        }
    }
}
