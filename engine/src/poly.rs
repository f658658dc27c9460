//! Exact multivariate polynomials over opaque leaves, used to cancel terms
//! symbolically before they reach the solver.

use crate::term::T;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a as i128
}

impl Q {
    pub const ZERO: Q = Q { n: 0, d: 1 };
    pub fn new(n: i128, d: i128) -> Option<Q> {
        if d == 0 || n == i128::MIN || d == i128::MIN {
            return None;
        }
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Some(Q { n: s * n / g, d: s * d / g })
    }
    pub fn add(self, o: Q) -> Option<Q> {
        let g = gcd(self.d, o.d);
        let a = self.n.checked_mul(o.d / g)?;
        let b = o.n.checked_mul(self.d / g)?;
        Q::new(a.checked_add(b)?, (self.d / g).checked_mul(o.d)?)
    }
    pub fn mul(self, o: Q) -> Option<Q> {
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Q::new((self.n / g1).checked_mul(o.n / g2)?, (self.d / g2).checked_mul(o.d / g1)?)
    }
    pub fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
    pub fn inv(self) -> Option<Q> {
        Q::new(self.d, self.n)
    }
    /// The value of the decimal numeral this constant is printed as.
    pub fn from_f64(c: f64) -> Option<Q> {
        if !c.is_finite() {
            return None;
        }
        let s = format!("{}", c.abs());
        let (i, f) = s.split_once('.').unwrap_or((&s, ""));
        if i.len() + f.len() > 30 {
            return None;
        }
        let n: i128 = format!("{}{}", i, f).parse().ok()?;
        let q = Q::new(n, 10i128.checked_pow(f.len() as u32)?)?;
        Some(if c < 0.0 { q.neg() } else { q })
    }
    /// The float whose printed decimal is exactly this rational.
    pub fn to_f64(self) -> Option<f64> {
        let c = self.approx();
        if Q::from_f64(c)? == self {
            Some(c)
        } else {
            None
        }
    }
    pub fn approx(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    pub fn sqrt(self) -> Option<Q> {
        let r = |x: i128| -> Option<i128> {
            if x < 0 {
                return None;
            }
            let mut k = (x as f64).sqrt() as i128;
            while k * k > x {
                k -= 1
            }
            while (k + 1) * (k + 1) <= x {
                k += 1
            }
            if k * k == x { Some(k) } else { None }
        };
        if self.n > 1 << 80 || self.d > 1 << 80 {
            return None;
        }
        Q::new(r(self.n)?, r(self.d)?)
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Poly {
    pub m: BTreeMap<Vec<T>, Q>,
}

pub const MAX_MONO: usize = 48;
pub const MAX_DEG: usize = 6;

impl Poly {
    pub fn constant(q: Q) -> Poly {
        let mut m = BTreeMap::new();
        if q.n != 0 {
            m.insert(vec![], q);
        }
        Poly { m }
    }
    pub fn leaf(t: T) -> Poly {
        let mut m = BTreeMap::new();
        m.insert(vec![t], Q { n: 1, d: 1 });
        Poly { m }
    }
    pub fn as_const(&self) -> Option<Q> {
        match self.m.len() {
            0 => Some(Q::ZERO),
            1 => self.m.get(&vec![]).copied(),
            _ => None,
        }
    }
    /// The factor c with self = c * o.
    pub fn multiple_of(&self, o: &Poly) -> Option<Q> {
        if self.m.len() != o.m.len() {
            return None;
        }
        let c = self.m.values().next()?.mul(o.m.values().next()?.inv()?)?;
        if o.m.iter().all(|(k, q)| self.m.get(k).copied() == q.mul(c)) {
            Some(c)
        } else {
            None
        }
    }
    pub fn leaves(&self) -> BTreeSet<T> {
        self.m.keys().flatten().cloned().collect()
    }
    pub fn add(&self, o: &Poly, sign: bool) -> Option<Poly> {
        let mut m = self.m.clone();
        for (k, q) in &o.m {
            let q = if sign { *q } else { q.neg() };
            let e = m.entry(k.clone()).or_insert(Q::ZERO);
            *e = e.add(q)?;
            if e.n == 0 {
                m.remove(k);
            }
        }
        if m.len() > MAX_MONO {
            return None;
        }
        Some(Poly { m })
    }
    pub fn scale(&self, q: Q) -> Option<Poly> {
        let mut m = BTreeMap::new();
        if q.n != 0 {
            for (k, v) in &self.m {
                m.insert(k.clone(), v.mul(q)?);
            }
        }
        Some(Poly { m })
    }
    pub fn mul(&self, o: &Poly) -> Option<Poly> {
        if self.m.len() * o.m.len() > 400 {
            return None;
        }
        let mut m: BTreeMap<Vec<T>, Q> = BTreeMap::new();
        for (a, p) in &self.m {
            for (b, q) in &o.m {
                let mut k = a.clone();
                k.extend(b);
                if k.len() > MAX_DEG {
                    return None;
                }
                k.sort();
                let e = m.entry(k).or_insert(Q::ZERO);
                *e = e.add(p.mul(*q)?)?;
            }
        }
        m.retain(|_, q| q.n != 0);
        if m.len() > MAX_MONO {
            return None;
        }
        Some(Poly { m })
    }
}
