//! Hash-consed terms, constant folding, concrete evaluation, and interval /
//! rounding-error analysis.

use crate::poly::{Poly, Q};
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    B,
    F,
    I(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    BC(bool), FC(u64), IC(u128), Var(u32),
    Not, And, Or, Xor, Ite,
    FLt, FLe, FEq, FNan,
    IEq, Ult, Ule, Slt, Sle,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, IAnd, IOr, IXor,
    ZExt, SExt, Trunc, B2I, Ctpop, Cttz,
    FAdd, FSub, FMul, FDiv, FNeg, FAbs, FSqrt, FMin, FMax, FFloor, FCeil, FTrunc,
    FToU, FToS, UToF, SToF, Bits, FromBits,
    /// Same real value as its argument (a cancelled polynomial form); the IEEE
    /// value and rounding error are those of the recorded original term.
    Approx(T),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub sort: Sort,
    pub a: [T; 3],
}

pub const NONE: T = u32::MAX;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CV {
    B(bool),
    F(f64),
    I(u128),
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub sort: Sort,
    pub flo: f64,
    pub fhi: f64,
    pub ilo: u128,
    pub ihi: u128,
}

/// Interval (with rounding error bound for float terms).
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Iv {
    pub lo: f64,
    pub hi: f64,
    pub err: f64,
    pub ilo: u128,
    pub ihi: u128,
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    pub vars: Vec<VarInfo>,
    var_by_name: HashMap<String, T>,
    pub base: Vec<Iv>,
    /// Bounds on the IEEE value of float terms.
    pub fb: Vec<(f64, f64)>,
    polys: HashMap<T, Option<Rc<Poly>>>,
    /// The sums abbreviated by a leaf.
    abbrs: HashMap<T, Rc<Poly>>,
    /// The denominators of reciprocals.
    recips: HashMap<T, Rc<Poly>>,
    simp: HashMap<T, T>,
    /// Opaque leaves by operator and operand polynomials.
    leafs: HashMap<(Op, Vec<Vec<(Vec<T>, (i128, i128))>>), T>,
    /// Terms by polynomial form.
    classes: HashMap<Vec<(Vec<T>, (i128, i128))>, T>,
    /// The quotients and roots below a term that have not been shown to be
    /// defined (denominator not zero, radicand not negative).
    pub risk: Vec<Option<Rc<Vec<T>>>>,
    /// Might the term be NaN because of one of these?
    nan: Vec<bool>,
    /// Are quotients and roots built now such ones?
    pub lazy: bool,
    pub real: bool,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

use crate::ir::sext;

const U: f64 = 1.1102230246251565e-16; // 2^-53

pub fn up(x: f64) -> f64 {
    if x.is_finite() { x.next_up() } else { x }
}
pub fn dn(x: f64) -> f64 {
    if x.is_finite() { x.next_down() } else { x }
}

impl Terms {
    pub fn new(real: bool) -> Self {
        Terms { nodes: vec![], map: HashMap::new(), vars: vec![], var_by_name: HashMap::new(), base: vec![], fb: vec![], polys: HashMap::new(), abbrs: HashMap::new(), recips: HashMap::new(), simp: HashMap::new(), leafs: HashMap::new(), classes: HashMap::new(), risk: vec![], nan: vec![], lazy: false, real }
    }
    pub fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    pub fn sort(&self, t: T) -> Sort {
        self.nodes[t as usize].sort
    }
    fn raw(&mut self, op: Op, sort: Sort, a: [T; 3]) -> T {
        let n = Node { op, sort, a };
        if let Some(t) = self.map.get(&n) {
            return *t;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n);
        self.map.insert(n, t);
        let iv = self.forward(n, |me, x| me.base[x as usize]);
        self.base.push(iv);
        let fb = if self.real && sort == Sort::F { self.value_bounds(n, iv) } else { (f64::NEG_INFINITY, f64::INFINITY) };
        self.fb.push(fb);
        let mut risk: Option<Rc<Vec<T>>> = None;
        if self.real {
            let mut from = a.to_vec();
            if let Op::Approx(o) = op {
                from.push(o);
            }
            for x in from {
                if x == NONE {
                    continue;
                }
                if let Some(r) = &self.risk[x as usize] {
                    risk = Some(match risk {
                        None => r.clone(),
                        Some(q) if Rc::ptr_eq(&q, r) => q,
                        Some(q) => {
                            let mut v: Vec<T> = q.iter().chain(r.iter()).cloned().collect();
                            v.sort();
                            v.dedup();
                            Rc::new(v)
                        }
                    });
                }
            }
            if self.lazy && matches!(op, Op::FDiv | Op::FSqrt) {
                let mut v = risk.map(|r| (*r).clone()).unwrap_or_default();
                v.push(t);
                risk = Some(Rc::new(v));
            }
        }
        let nan = risk.is_some() && {
            let nan = |k: usize| a[k] != NONE && self.nan[a[k] as usize];
            let inf = |k: usize| a[k] != NONE && self.risk[a[k] as usize].is_some() && !(self.fb[a[k] as usize].0.is_finite() && self.fb[a[k] as usize].1.is_finite());
            match op {
                Op::FMin | Op::FMax => nan(0) && nan(1),
                Op::Ite => nan(1) || nan(2),
                Op::Approx(o) => self.nan[o as usize],
                Op::FNeg | Op::FAbs | Op::FFloor | Op::FCeil | Op::FTrunc => nan(0),
                Op::FAdd | Op::FSub | Op::FMul => nan(0) || nan(1) || inf(0) || inf(1),
                _ => sort == Sort::F,
            }
        };
        self.risk.push(risk);
        self.nan.push(nan);
        t
    }

    /// Is there a node for this operation that was built as never undefined?
    pub fn has_safe(&self, op: Op, a: [T; 3]) -> bool {
        match self.map.get(&Node { op, sort: Sort::F, a }) {
            Some(t) => !self.risk[*t as usize].as_ref().map_or(false, |r| r.contains(t)),
            None => false,
        }
    }

    /// Might this be NaN because of an undefined quotient or root below it?
    fn risky(&self, t: T) -> bool {
        self.nan[t as usize]
    }
    pub fn b(&mut self, v: bool) -> T {
        self.raw(Op::BC(v), Sort::B, [NONE; 3])
    }
    pub fn f(&mut self, v: f64) -> T {
        self.raw(Op::FC(v.to_bits()), Sort::F, [NONE; 3])
    }
    pub fn i(&mut self, v: u128, w: u32) -> T {
        if w == 1 {
            return self.b(v & 1 == 1);
        }
        self.raw(Op::IC(v & mask(w)), Sort::I(w), [NONE; 3])
    }
    pub fn var(&mut self, info: VarInfo) -> T {
        if let Some(t) = self.var_by_name.get(&info.name) {
            return *t;
        }
        let idx = self.vars.len() as u32;
        let s = info.sort;
        let name = info.name.clone();
        self.vars.push(info);
        let t = self.raw(Op::Var(idx), s, [NONE; 3]);
        self.var_by_name.insert(name, t);
        t
    }
    pub fn is_const(&self, t: T) -> Option<CV> {
        match self.n(t).op {
            Op::BC(b) => Some(CV::B(b)),
            Op::FC(b) => Some(CV::F(f64::from_bits(b))),
            Op::IC(v) => Some(CV::I(v)),
            _ => None,
        }
    }
    pub fn from_cv(&mut self, v: CV, s: Sort) -> T {
        match (v, s) {
            (CV::B(b), _) => self.b(b),
            (CV::F(f), _) => self.f(f),
            (CV::I(i), Sort::I(w)) => self.i(i, w),
            _ => unreachable!(),
        }
    }
    fn fc(&self, t: T) -> Option<f64> {
        match self.n(t).op {
            Op::FC(b) => Some(f64::from_bits(b)),
            _ => None,
        }
    }
    fn ic(&self, t: T) -> Option<u128> {
        match self.n(t).op {
            Op::IC(v) => Some(v),
            _ => None,
        }
    }

    pub fn not(&mut self, a: T) -> T {
        match self.n(a).op {
            Op::BC(b) => self.b(!b),
            Op::Not => self.n(a).a[0],
            _ => self.raw(Op::Not, Sort::B, [a, NONE, NONE]),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        match (self.n(a).op, self.n(b).op) {
            (Op::BC(false), _) | (_, Op::BC(false)) => self.b(false),
            (Op::BC(true), _) => b,
            (_, Op::BC(true)) => a,
            _ => {
                if self.not(a) == b {
                    return self.b(false);
                }
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                self.raw(Op::And, Sort::B, [a, b, NONE])
            }
        }
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        match (self.n(a).op, self.n(b).op) {
            (Op::BC(true), _) | (_, Op::BC(true)) => self.b(true),
            (Op::BC(false), _) => b,
            (_, Op::BC(false)) => a,
            _ => {
                if self.not(a) == b {
                    return self.b(true);
                }
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                self.raw(Op::Or, Sort::B, [a, b, NONE])
            }
        }
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.b(false);
        }
        match (self.n(a).op, self.n(b).op) {
            (Op::BC(x), _) => if x { self.not(b) } else { b },
            (_, Op::BC(x)) => if x { self.not(a) } else { a },
            _ => {
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                self.raw(Op::Xor, Sort::B, [a, b, NONE])
            }
        }
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        match self.n(c).op {
            Op::BC(true) => return a,
            Op::BC(false) => return b,
            Op::Not => {
                let c2 = self.n(c).a[0];
                return self.ite(c2, b, a);
            }
            _ => {}
        }
        let s = self.sort(a);
        if s == Sort::B {
            match (self.n(a).op, self.n(b).op) {
                (Op::BC(true), _) => return self.or(c, b),
                (Op::BC(false), _) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (_, Op::BC(true)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                (_, Op::BC(false)) => return self.and(c, a),
                _ => {}
            }
        }
        // ite(c, ite(c, x, y), z) = ite(c, x, z)
        let mut a = a;
        let mut b = b;
        if self.n(a).op == Op::Ite && self.n(a).a[0] == c {
            a = self.n(a).a[1];
        }
        if self.n(b).op == Op::Ite && self.n(b).a[0] == c {
            b = self.n(b).a[2];
        }
        if a == b {
            return a;
        }
        if self.real && s == Sort::F {
            if let Some(m) = self.extremum(c, a, b) {
                return m;
            }
        }
        self.raw(Op::Ite, s, [c, a, b])
    }

    /// The real value of `r` with the IEEE value and the error bound of `o`.
    pub fn approx(&mut self, o: T, r: T) -> T {
        self.raw(Op::Approx(o), Sort::F, [r, NONE, NONE])
    }

    /// A choice between two values by their own order: the comparison's two sides
    /// differ by a multiple of what the values differ by. Where rounding lets the
    /// comparison come out the wrong way, the two values are close to each other.
    fn extremum(&mut self, c: T, a: T, b: T) -> Option<T> {
        let n = self.n(c);
        if !matches!(n.op, Op::FLt | Op::FLe) {
            return None;
        }
        let all = [n.a[0], n.a[1], a, b];
        if all.iter().any(|x| self.risk[*x as usize].is_some() || !self.base[*x as usize].err.is_finite()) {
            return None;
        }
        if all.iter().any(|x| self.fc(*x).map_or(false, |c| !c.is_finite())) {
            return None;
        }
        if n.a[0] == b && n.a[1] == a {
            return self.mk(Op::FMax, Sort::F, &[a, b]).ok();
        }
        if n.a[0] == a && n.a[1] == b {
            return self.mk(Op::FMin, Sort::F, &[a, b]).ok();
        }
        let (p, q) = (self.poly(n.a[0])?, self.poly(n.a[1])?);
        let (x, y) = (self.poly(a)?, self.poly(b)?);
        let k = x.add(&y, false)?.multiple_of(&q.add(&p, false)?)?.approx();
        let op = if k > 0.0 {
            Op::FMax
        } else if k < 0.0 {
            Op::FMin
        } else {
            return None;
        };
        let m = self.mk(op, Sort::F, &[a, b]).ok()?;
        let e = |t: T| self.base[t as usize].err;
        let err = up(e(a).max(e(b)) + up(up(k.abs()) * up(e(n.a[0]) + e(n.a[1]))));
        let o = self.raw(Op::Ite, Sort::F, [c, a, b]);
        self.base[o as usize].err = err;
        Some(self.raw(Op::Approx(o), Sort::F, [m, NONE, NONE]))
    }

    /// Generic constructor with constant folding and light simplification.
    /// Is this a float's total-order key (`f64::total_cmp`), or a choice between such keys?
    fn has_key(&self, t: T) -> bool {
        let n = self.n(t);
        match n.op {
            Op::IXor => self.key_of(t).is_some(),
            Op::Ite => self.has_key(n.a[1]) || self.has_key(n.a[2]),
            _ => false,
        }
    }

    fn key_of(&self, t: T) -> Option<T> {
        let n = self.n(t);
        for (x, y) in [(n.a[0], n.a[1]), (n.a[1], n.a[0])] {
            if self.n(x).op != Op::Bits {
                continue;
            }
            let ny = self.n(y);
            let c = if ny.a[1] == NONE { None } else { self.ic(ny.a[1]) };
            let inner = match (ny.op, c) {
                (Op::LShr, Some(1)) => ny.a[0],
                (Op::IAnd, Some(v)) if v == (1 << 63) - 1 => ny.a[0],
                _ => continue,
            };
            let ni = self.n(inner);
            if ni.op == Op::AShr && ni.a[0] == x && self.ic(ni.a[1]) == Some(63) {
                return Some(self.n(x).a[0]);
            }
        }
        None
    }

    /// The float whose total-order key this is. The two zeros count as equal.
    fn ord_key(&mut self, t: T) -> Option<T> {
        if let Some(c) = self.ic(t) {
            let b = c as u64 as i64;
            let b = b ^ (((b >> 63) as u64) >> 1) as i64;
            let f = f64::from_bits(b as u64);
            return if f.is_nan() { None } else { Some(self.f(f)) };
        }
        let n = self.n(t);
        match n.op {
            Op::IXor => self.key_of(t),
            Op::Bits if self.base[n.a[0] as usize].lo >= 0.0 => Some(n.a[0]),
            Op::Ite => {
                let x = self.ord_key(n.a[1])?;
                let y = self.ord_key(n.a[2])?;
                Some(self.ite(n.a[0], x, y))
            }
            _ => None,
        }
    }

    pub fn mk(&mut self, op: Op, sort: Sort, args: &[T]) -> Result<T, String> {
        let mut a = [NONE; 3];
        a[..args.len()].copy_from_slice(args);
        match op {
            Op::Not => return Ok(self.not(a[0])),
            Op::And => return Ok(self.and(a[0], a[1])),
            Op::Or => return Ok(self.or(a[0], a[1])),
            Op::Xor => return Ok(self.xor(a[0], a[1])),
            Op::Ite => return Ok(self.ite(a[0], a[1], a[2])),
            _ => {}
        }
        if args.iter().all(|x| self.is_const(*x).is_some()) {
            let vals: Vec<CV> = args.iter().map(|x| self.is_const(*x).unwrap()).collect();
            let s0 = self.sort(args[0]);
            if let Some(v) = apply(op, sort, s0, &vals) {
                return Ok(self.from_cv(v, sort));
            }
        }
        // distribute over ite with constant leaves (keeps discriminants simple)
        match op {
            Op::IEq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::ZExt | Op::SExt | Op::Trunc | Op::IAnd | Op::IOr | Op::IXor | Op::Add | Op::Sub | Op::Shl | Op::LShr => {
                for k in 0..args.len() {
                    let n = self.n(args[k]);
                    let others_const = (0..args.len()).all(|j| j == k || self.is_const(args[j]).is_some());
                    if n.op == Op::Ite && others_const && self.const_leaves(args[k], 8) > 0 {
                        let mut x = args.to_vec();
                        x[k] = n.a[1];
                        let p = self.mk(op, sort, &x)?;
                        x[k] = n.a[2];
                        let q = self.mk(op, sort, &x)?;
                        return Ok(self.ite(n.a[0], p, q));
                    }
                }
            }
            _ => {}
        }
        let w = match sort {
            Sort::I(w) => w,
            _ => 0,
        };
        match op {
            Op::FLt | Op::FLe | Op::FEq => {
                if self.real {
                    if a[0] == a[1] && !self.risky(a[0]) {
                        return Ok(self.b(op != Op::FLt));
                    }
                    for k in 0..2 {
                        if let Some(c) = self.fc(a[k]) {
                            if c.is_nan() {
                                return Ok(self.b(false));
                            }
                            if c.is_infinite() {
                                let r = match op {
                                    Op::FEq => false,
                                    _ => (k == 0) == (c < 0.0),
                                };
                                return Ok(self.b(r));
                            }
                        }
                    }
                }
                if op == Op::FEq && a[0] > a[1] {
                    a.swap(0, 1);
                }
                if self.real && !self.risky(a[0]) && !self.risky(a[1]) {
                    if let Some(r) = self.decide_cmp(op, a[0], a[1]) {
                        return Ok(self.b(r));
                    }
                }
            }
            Op::FNan => {
                if self.real {
                    return Ok(self.b(false));
                }
            }
            Op::IEq => {
                if a[0] == a[1] {
                    return Ok(self.b(true));
                }
                for k in 0..2 {
                    if let (Op::B2I, Some(c)) = (self.n(a[k]).op, self.ic(a[1 - k])) {
                        let x = self.n(a[k]).a[0];
                        return Ok(match c {
                            0 => self.not(x),
                            1 => x,
                            _ => self.b(false),
                        });
                    }
                    // zext(x) == c
                    if let (Op::ZExt, Some(c)) = (self.n(a[k]).op, self.ic(a[1 - k])) {
                        let x = self.n(a[k]).a[0];
                        if let Sort::I(w) = self.sort(x) {
                            if c > mask(w) {
                                return Ok(self.b(false));
                            }
                            let ct = self.i(c, w);
                            return self.mk(Op::IEq, Sort::B, &[x, ct]);
                        }
                    }
                }
                if a[0] > a[1] {
                    a.swap(0, 1);
                }
                let (x, y) = (self.base[a[0] as usize], self.base[a[1] as usize]);
                if x.ihi < y.ilo || y.ihi < x.ilo {
                    return Ok(self.b(false));
                }
            }
            Op::Ult => {
                if a[0] == a[1] {
                    return Ok(self.b(false));
                }
                let (x, y) = (self.base[a[0] as usize], self.base[a[1] as usize]);
                if x.ihi < y.ilo {
                    return Ok(self.b(true));
                }
                if x.ilo >= y.ihi {
                    return Ok(self.b(false));
                }
                if let (Op::B2I, Some(1)) = (self.n(a[0]).op, self.ic(a[1])) {
                    let x = self.n(a[0]).a[0];
                    return Ok(self.not(x));
                }
                if let (Some(1), true) = (self.ic(a[1]), true) {
                    let z = self.i(0, self.width(a[0]));
                    return self.mk(Op::IEq, Sort::B, &[a[0], z]);
                }
            }
            Op::Ule => {
                if a[0] == a[1] {
                    return Ok(self.b(true));
                }
                let (x, y) = (self.base[a[0] as usize], self.base[a[1] as usize]);
                if x.ihi <= y.ilo {
                    return Ok(self.b(true));
                }
                if x.ilo > y.ihi {
                    return Ok(self.b(false));
                }
            }
            Op::Slt | Op::Sle => {
                if a[0] == a[1] {
                    return Ok(self.b(op == Op::Sle));
                }
                if self.real && self.width(a[0]) == 64 && (self.has_key(a[0]) || self.has_key(a[1])) {
                    if let (Some(x), Some(y)) = (self.ord_key(a[0]), self.ord_key(a[1])) {
                        let o = if op == Op::Slt { Op::FLt } else { Op::FLe };
                        return self.mk(o, Sort::B, &[x, y]);
                    }
                }
                let w = self.width(a[0]);
                let half = 1u128 << (w - 1);
                let (x, y) = (self.base[a[0] as usize], self.base[a[1] as usize]);
                if x.ihi < half && y.ihi < half {
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.mk(o, Sort::B, &[a[0], a[1]]);
                }
                // sign tests on the bits of a float
                if self.n(a[0]).op == Op::Bits && self.real {
                    let x = self.n(a[0]).a[0];
                    if let Some(c) = self.ic(a[1]) {
                        if (op == Op::Slt && c == 0) || (op == Op::Sle && c == mask(w)) {
                            let z = self.f(0.0);
                            return self.mk(Op::FLt, Sort::B, &[x, z]);
                        }
                    }
                }
                if self.n(a[1]).op == Op::Bits && self.real {
                    let x = self.n(a[1]).a[0];
                    if let Some(c) = self.ic(a[0]) {
                        if (op == Op::Slt && c == mask(w)) || (op == Op::Sle && c == 0) {
                            let z = self.f(0.0);
                            let r = self.mk(Op::FLt, Sort::B, &[x, z])?;
                            return Ok(self.not(r));
                        }
                    }
                }
            }
            Op::Add => {
                if self.ic(a[0]).is_some() {
                    a.swap(0, 1);
                }
                if self.ic(a[1]) == Some(0) {
                    return Ok(a[0]);
                }
                // (x + c1) + c2
                if let (Op::Add, Some(c)) = (self.n(a[0]).op, self.ic(a[1])) {
                    let n0 = self.n(a[0]);
                    if let Some(c1) = self.ic(n0.a[1]) {
                        let k = self.i(c1.wrapping_add(c), w);
                        return self.mk(Op::Add, sort, &[n0.a[0], k]);
                    }
                }
                // (x + c1) + y -> (x + y) + c1
                if let Op::Add = self.n(a[0]).op {
                    let n0 = self.n(a[0]);
                    if self.ic(n0.a[1]).is_some() {
                        let s = self.mk(Op::Add, sort, &[n0.a[0], a[1]])?;
                        return self.mk(Op::Add, sort, &[s, n0.a[1]]);
                    }
                }
                if let Op::Add = self.n(a[1]).op {
                    let n0 = self.n(a[1]);
                    if self.ic(n0.a[1]).is_some() {
                        let s = self.mk(Op::Add, sort, &[a[0], n0.a[0]])?;
                        return self.mk(Op::Add, sort, &[s, n0.a[1]]);
                    }
                }
                // (x - y) + y
                if let Op::Sub = self.n(a[0]).op {
                    if self.n(a[0]).a[1] == a[1] {
                        return Ok(self.n(a[0]).a[0]);
                    }
                }
            }
            Op::Sub => {
                if a[0] == a[1] {
                    return Ok(self.i(0, w));
                }
                if let Some(c) = self.ic(a[1]) {
                    let k = self.i((0u128).wrapping_sub(c) & mask(w), w);
                    return self.mk(Op::Add, sort, &[a[0], k]);
                }
                // (x + c) - x
                if let Op::Add = self.n(a[0]).op {
                    let n0 = self.n(a[0]);
                    if n0.a[0] == a[1] {
                        return Ok(n0.a[1]);
                    }
                    if n0.a[1] == a[1] {
                        return Ok(n0.a[0]);
                    }
                    // (x + c1) - (y + c2)
                    if let (Some(c1), Op::Add) = (self.ic(n0.a[1]), self.n(a[1]).op) {
                        let n1 = self.n(a[1]);
                        if let Some(c2) = self.ic(n1.a[1]) {
                            let d = self.mk(Op::Sub, sort, &[n0.a[0], n1.a[0]])?;
                            let k = self.i(c1.wrapping_sub(c2), w);
                            return self.mk(Op::Add, sort, &[d, k]);
                        }
                    }
                    // (x + c) - y
                    if self.ic(n0.a[1]).is_some() {
                        let d = self.mk(Op::Sub, sort, &[n0.a[0], a[1]])?;
                        return self.mk(Op::Add, sort, &[d, n0.a[1]]);
                    }
                }
            }
            Op::Mul => {
                if self.ic(a[0]).is_some() {
                    a.swap(0, 1);
                }
                match self.ic(a[1]) {
                    Some(0) => return Ok(a[1]),
                    Some(1) => return Ok(a[0]),
                    _ => {}
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if self.ic(a[1]) == Some(0) {
                    return Ok(a[0]);
                }
                if let (Op::Shl, Some(c)) = (op, self.ic(a[1])) {
                    if c < w as u128 {
                        let k = self.i(1u128 << c, w);
                        return self.mk(Op::Mul, sort, &[a[0], k]);
                    }
                }
            }
            Op::UDiv => {
                if self.ic(a[1]) == Some(1) {
                    return Ok(a[0]);
                }
                // exact division of pointer differences: (x * c) / c
                if let (Op::Mul, Some(c)) = (self.n(a[0]).op, self.ic(a[1])) {
                    let n0 = self.n(a[0]);
                    if self.ic(n0.a[1]) == Some(c) && self.base[n0.a[0] as usize].ihi.checked_mul(c).map_or(false, |v| v <= mask(w)) {
                        return Ok(n0.a[0]);
                    }
                }
            }
            Op::IAnd => {
                if self.ic(a[0]).is_some() {
                    a.swap(0, 1);
                }
                match self.ic(a[1]) {
                    Some(0) => return Ok(a[1]),
                    Some(c) if c == mask(w) => return Ok(a[0]),
                    Some(c) => {
                        let hi = self.base[a[0] as usize].ihi;
                        if (c + 1).is_power_of_two() && hi <= c {
                            return Ok(a[0]);
                        }
                    }
                    _ => {}
                }
                if a[0] == a[1] {
                    return Ok(a[0]);
                }
            }
            Op::IOr | Op::IXor => {
                if self.ic(a[0]).is_some() {
                    a.swap(0, 1);
                }
                if self.ic(a[1]) == Some(0) {
                    return Ok(a[0]);
                }
                if a[0] == a[1] {
                    return Ok(if op == Op::IOr { a[0] } else { self.i(0, w) });
                }
                // xor of a 0/1 value
                if let (Op::IXor, Op::B2I, Some(1)) = (op, self.n(a[0]).op, self.ic(a[1])) {
                    let x = self.n(a[0]).a[0];
                    let nx = self.not(x);
                    return self.mk(Op::B2I, sort, &[nx]);
                }
            }
            Op::ZExt => {
                let n0 = self.n(a[0]);
                if n0.sort == sort {
                    return Ok(a[0]);
                }
                if n0.op == Op::ZExt || n0.op == Op::B2I {
                    return self.mk(n0.op, sort, &[n0.a[0]]);
                }
            }
            Op::SExt => {
                let n0 = self.n(a[0]);
                if n0.sort == sort {
                    return Ok(a[0]);
                }
                if let Sort::I(w0) = n0.sort {
                    if self.base[a[0] as usize].ihi < (1u128 << (w0 - 1)) {
                        return self.mk(Op::ZExt, sort, &[a[0]]);
                    }
                }
            }
            Op::Trunc => {
                let n0 = self.n(a[0]);
                if n0.sort == sort {
                    return Ok(a[0]);
                }
                if n0.op == Op::B2I {
                    return self.mk(Op::B2I, sort, &[n0.a[0]]);
                }
                if n0.op == Op::ZExt || n0.op == Op::SExt {
                    let ws = self.width(n0.a[0]);
                    if ws == w {
                        return Ok(n0.a[0]);
                    }
                    if ws < w {
                        return self.mk(n0.op, sort, &[n0.a[0]]);
                    }
                    return self.mk(Op::Trunc, sort, &[n0.a[0]]);
                }
            }
            Op::B2I => {}
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv if self.real => {
                let (c0, c1) = (self.fc(a[0]), self.fc(a[1]));
                if c0.map_or(false, |c| c.is_nan()) || c1.map_or(false, |c| c.is_nan()) {
                    return Ok(self.f(f64::NAN));
                }
                match op {
                    Op::FAdd => {
                        for k in 0..2 {
                            if let Some(c) = self.fc(a[k]) {
                                if c == 0.0 {
                                    return Ok(a[1 - k]);
                                }
                                if c.is_infinite() {
                                    return Ok(a[k]);
                                }
                            }
                        }
                        if a[0] > a[1] {
                            a.swap(0, 1);
                        }
                    }
                    Op::FSub => {
                        if c1 == Some(0.0) {
                            return Ok(a[0]);
                        }
                        if c0.map_or(false, |c| c.is_infinite()) {
                            return Ok(a[0]);
                        }
                        if let Some(c) = c1 {
                            if c.is_infinite() {
                                return Ok(self.f(-c));
                            }
                        }
                        if a[0] == a[1] {
                            return Ok(self.f(0.0));
                        }
                        if c0 == Some(0.0) {
                            return self.mk(Op::FNeg, Sort::F, &[a[1]]);
                        }
                    }
                    Op::FMul => {
                        for k in 0..2 {
                            if let Some(c) = self.fc(a[k]) {
                                if c == 0.0 && !self.risky(a[1 - k]) {
                                    return Ok(self.f(0.0));
                                }
                                if c == 1.0 {
                                    return Ok(a[1 - k]);
                                }
                                if c == -1.0 {
                                    return self.mk(Op::FNeg, Sort::F, &[a[1 - k]]);
                                }
                                if c.is_infinite() {
                                    let iv = self.base[a[1 - k] as usize];
                                    if iv.lo > 0.0 {
                                        return Ok(a[k]);
                                    }
                                    if iv.hi < 0.0 {
                                        return Ok(self.f(-c));
                                    }
                                    return Err("inf * symbolic".into());
                                }
                            }
                        }
                        if a[0] > a[1] {
                            a.swap(0, 1);
                        }
                    }
                    _ => {
                        if let Some(c) = c1 {
                            if c == 1.0 {
                                return Ok(a[0]);
                            }
                            if c.is_infinite() {
                                return Ok(self.f(0.0));
                            }
                            if c == 0.0 {
                                return Err("symbolic / 0".into());
                            }
                        }
                        if let Some(c) = c0 {
                            if c == 0.0 {
                                return Ok(self.f(0.0));
                            }
                            if c.is_infinite() {
                                let iv = self.base[a[1] as usize];
                                if iv.lo > 0.0 {
                                    return Ok(a[0]);
                                }
                                if iv.hi < 0.0 {
                                    return Ok(self.f(-c));
                                }
                                return Err("inf / symbolic".into());
                            }
                        }
                    }
                }
            }
            Op::FNeg => {
                if self.n(a[0]).op == Op::FNeg {
                    return Ok(self.n(a[0]).a[0]);
                }
            }
            Op::FAbs => {
                let iv = self.base[a[0] as usize];
                if self.real && iv.lo > iv.err {
                    return Ok(a[0]);
                }
                if matches!(self.n(a[0]).op, Op::FNeg | Op::FAbs) {
                    let x = self.n(a[0]).a[0];
                    return self.mk(Op::FAbs, Sort::F, &[x]);
                }
            }
            Op::FMin | Op::FMax => {
                if a[0] == a[1] {
                    return Ok(a[0]);
                }
                if self.real {
                    for k in 0..2 {
                        if let Some(c) = self.fc(a[k]) {
                            if c.is_nan() {
                                return Ok(a[1 - k]);
                            }
                            if c.is_infinite() {
                                return Ok(if (c > 0.0) == (op == Op::FMin) { a[1 - k] } else { a[k] });
                            }
                        }
                    }
                    // one of them is never the greater: the order of the IEEE values is exact
                    let (x, y) = (self.fb[a[0] as usize], self.fb[a[1] as usize]);
                    let sure = !self.risky(a[0]) && !self.risky(a[1]);
                    if x.1 <= y.0 && sure {
                        return Ok(if op == Op::FMin { a[0] } else { a[1] });
                    }
                    if y.1 <= x.0 && sure {
                        return Ok(if op == Op::FMin { a[1] } else { a[0] });
                    }
                }
                if a[0] > a[1] {
                    a.swap(0, 1);
                }
            }
            Op::Bits => {
                if self.n(a[0]).op == Op::FromBits {
                    return Ok(self.n(a[0]).a[0]);
                }
            }
            Op::FromBits => {
                if self.n(a[0]).op == Op::Bits {
                    return Ok(self.n(a[0]).a[0]);
                }
                if self.real {
                    // ite over constant bit patterns
                    if self.n(a[0]).op == Op::Ite {
                        let n0 = self.n(a[0]);
                        let p = self.mk(Op::FromBits, sort, &[n0.a[1]])?;
                        let q = self.mk(Op::FromBits, sort, &[n0.a[2]])?;
                        return Ok(self.ite(n0.a[0], p, q));
                    }
                    return Err("float from symbolic bits".into());
                }
            }
            _ => {}
        }
        if self.real && sort == Sort::F {
            for &x in args {
                if self.sort(x) == Sort::F {
                    if let Some(c) = self.fc(x) {
                        if !c.is_finite() {
                            return Err(format!("non-finite constant operand of {:?}", op));
                        }
                    }
                }
            }
        }
        let fresh = self.nodes.len();
        let t = self.raw(op, sort, a);
        if self.real && matches!(op, Op::FToU | Op::FToS) && self.risk[t as usize].is_none() {
            let iv = self.base[t as usize];
            if iv.ilo == iv.ihi {
                return Ok(self.i(iv.ilo, self.width(t)));
            }
        }
        if self.real && matches!(op, Op::FAdd | Op::FSub) && t as usize == fresh {
            self.tighten(t);
        }
        if self.real && matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt) {
            let r = self.cancel(t);
            return Ok(self.share(r, t));
        }
        if self.real && matches!(op, Op::FMin | Op::FMax | Op::FAbs | Op::FNeg) {
            return Ok(self.share(t, t));
        }
        Ok(t)
    }

    // ------------------------------------------- polynomial normalisation

    /// The term's real value as a polynomial over opaque leaves.
    pub fn poly(&mut self, t: T) -> Option<Rc<Poly>> {
        if let Some(p) = self.polys.get(&t) {
            return p.clone();
        }
        let n = self.n(t);
        let p = match n.op {
            Op::FC(b) => Q::from_f64(snap(f64::from_bits(b))).map(Poly::constant),
            Op::FAdd | Op::FSub => match (self.poly(n.a[0]), self.poly(n.a[1])) {
                (Some(x), Some(y)) => x.add(&y, n.op == Op::FAdd).map(|p| self.expand(p)),
                _ => None,
            },
            Op::FMul => match (self.poly(n.a[0]), self.poly(n.a[1])) {
                (Some(x), Some(y)) => match self.recip(&x, &y).or_else(|| self.recip(&y, &x)) {
                    Some(c) => Some(Poly::constant(c)),
                    // long sums are not multiplied out
                    None if x.m.len().min(y.m.len()) > 5 => match (self.abbreviate(&x), self.abbreviate(&y)) {
                        (Some(x), Some(y)) => x.mul(&y),
                        _ => None,
                    },
                    None => x.mul(&y),
                },
                _ => None,
            },
            Op::FNeg => self.poly(n.a[0]).and_then(|x| x.scale(Q { n: -1, d: 1 })),
            Op::FDiv => {
                let (x, y) = (self.poly(n.a[0]), self.poly(n.a[1]));
                match (x, y.as_ref().and_then(|y| y.as_const()).and_then(|c| c.inv()), y) {
                    (Some(x), Some(c), _) => x.scale(c),
                    (Some(x), None, Some(y)) => self.quotient(t, &x, &y),
                    _ => None,
                }
            }
            Op::FSqrt => match self.poly(n.a[0]).and_then(|x| x.as_const()) {
                Some(c) => c.sqrt().map(Poly::constant),
                None => self.square_root(n.a[0]),
            },
            Op::Approx(_) => self.poly(n.a[0]).map(|p| (*p).clone()),
            Op::FMin | Op::FMax => match (self.poly(n.a[0]), self.poly(n.a[1])) {
                // max(x, y) = y + max(x - y, 0), min(x, y) = x - max(x - y, 0)
                (Some(x), Some(y)) => x.add(&y, false).and_then(|d| self.positive(&d)).and_then(|m| if n.op == Op::FMax { y.add(&m, true) } else { x.add(&m, false) }),
                _ => None,
            },
            Op::FAbs => match self.poly(n.a[0]) {
                // |x| = 2 max(x, 0) - x
                Some(x) => self.positive(&x).and_then(|m| m.scale(Q { n: 2, d: 1 })).and_then(|m| m.add(&x, false)),
                None => None,
            },
            _ => None,
        };
        let r = match p {
            Some(p) => Some(Rc::new(p)),
            None => {
                let l = self.leaf(t);
                Some(Rc::new(Poly::leaf(l)))
            }
        };
        self.polys.insert(t, r.clone());
        r
    }

    /// Sharper bounds for a short sum whose sign is not known.
    fn tighten(&mut self, t: T) {
        let iv = self.base[t as usize];
        if !(iv.lo < 0.0 && iv.hi > 0.0) {
            return;
        }
        if let Some(p) = self.poly(t).filter(|p| (2..=8).contains(&p.m.len())) {
            let m = p.m.iter().map(|(k, q)| (k.clone(), q.approx())).collect::<Vec<_>>();
            let (lo, hi) = self.sum_bounds(&m, 3);
            let iv = &mut self.base[t as usize];
            if lo > iv.lo {
                iv.lo = lo;
            }
            if hi < iv.hi {
                iv.hi = hi;
            }
            let (iv, fb) = (*iv, &mut self.fb[t as usize]);
            if iv.err.is_finite() && self.risk[t as usize].is_none() {
                fb.0 = fb.0.max(dn(iv.lo - iv.err));
                fb.1 = fb.1.min(up(iv.hi + iv.err));
            }
        }
    }

    /// Bounds of a sum of monomials: term by term, or with a leaf factored out.
    fn sum_bounds(&self, m: &[(Vec<T>, f64)], depth: usize) -> (f64, f64) {
        // generous outward rounding
        let out = |(l, h): (f64, f64)| if l.is_nan() || h.is_nan() { (f64::NEG_INFINITY, f64::INFINITY) } else { (l - l.abs() * 1e-13 - 1e-300, h + h.abs() * 1e-13 + 1e-300) };
        let mul = |a: (f64, f64), b: (f64, f64)| {
            let v = [mul0(a.0, b.0), mul0(a.0, b.1), mul0(a.1, b.0), mul0(a.1, b.1)];
            out((v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max)))
        };
        let add = |a: (f64, f64), b: (f64, f64)| {
            let e = 1e-13 * a.0.abs().max(a.1.abs()).max(b.0.abs()).max(b.1.abs());
            let e = if e.is_finite() { e } else { 0.0 };
            out((a.0 + b.0 - e, a.1 + b.1 + e))
        };
        let leaf = |x: T| (self.base[x as usize].lo, self.base[x as usize].hi);
        let mut all = (0.0, 0.0);
        for (k, c) in m {
            let mut v = out((*c, *c));
            for x in k {
                v = mul(v, leaf(*x));
            }
            all = add(all, v);
        }
        if depth == 0 || m.len() < 2 {
            return all;
        }
        let mut vars = m.iter().flat_map(|(k, _)| k.iter().cloned()).collect::<Vec<_>>();
        vars.sort();
        vars.dedup();
        for x in vars {
            let (mut with, mut without) = (vec![], vec![]);
            for (k, c) in m {
                match k.iter().position(|y| *y == x) {
                    Some(i) => {
                        let mut k = k.clone();
                        k.remove(i);
                        with.push((k, *c));
                    }
                    None => without.push((k.clone(), *c)),
                }
            }
            if with.len() > 1 {
                let q = mul(self.sum_bounds(&with, depth - 1), leaf(x));
                let v = add(q, self.sum_bounds(&without, depth - 1));
                all = (f64::max(all.0, v.0), f64::min(all.1, v.1));
            }
        }
        all
    }

    /// A long sum as a multiple of one leaf plus a constant, so that products of
    /// sums too long to multiply out still cancel against each other.
    fn abbreviate(&mut self, x: &Poly) -> Option<Poly> {
        let c = Poly::constant(x.m.get(&vec![]).copied().unwrap_or(Q::ZERO));
        let v = x.add(&c, false)?;
        if v.m.len() < 2 {
            return Some(x.clone());
        }
        let unit = v.scale(v.m.values().next_back()?.inv()?)?;
        let key = unit.m.iter().map(|(k, q)| (k.clone(), (q.n, q.d))).collect::<Vec<_>>();
        let key = (Op::FAdd, vec![key]);
        let l = match self.leafs.get(&key) {
            Some(l) => *l,
            None => {
                let (z, unit) = match self.from_poly(&unit) {
                    Some(z) => (z, unit),
                    None => (self.from_poly(&v)?, v.clone()),
                };
                let zero = self.f(0.0);
                let l = self.raw(Op::FAdd, Sort::F, [z, zero, NONE]);
                self.polys.insert(l, Some(Rc::new(Poly::leaf(l))));
                self.leafs.insert(key, l);
                self.abbrs.insert(l, Rc::new(unit));
                l
            }
        };
        let q = v.multiple_of(&self.abbrs[&l])?;
        Poly::leaf(l).scale(q)?.add(&c, true)
    }

    /// Writes out abbreviations that are left alone.
    fn expand(&self, p: Poly) -> Poly {
        let mut r = p;
        while let Some((l, q)) = r.m.iter().find(|(k, _)| k.len() == 1 && self.abbrs.contains_key(&k[0])).map(|(k, q)| (k[0], *q)) {
            if r.m.keys().any(|k| k.len() > 1 && k.contains(&l)) {
                break;
            }
            let mut next = r.clone();
            next.m.remove(&vec![l]);
            match self.abbrs[&l].scale(q).and_then(|u| next.add(&u, true)) {
                Some(n) => r = n,
                None => break,
            }
        }
        r
    }

    /// The constant x * y where y is a multiple of the reciprocal of x.
    fn recip(&self, x: &Poly, y: &Poly) -> Option<Q> {
        let (k, q) = y.m.iter().next().filter(|_| y.m.len() == 1)?;
        let d = self.recips.get(k.first().filter(|_| k.len() == 1)?)?;
        x.multiple_of(d)?.mul(*q)
    }

    /// The root of a sum all but one of whose terms vanish, that one being x * x: |x|.
    fn square_root(&mut self, t: T) -> Option<Poly> {
        let mut todo = vec![t];
        let mut square = None;
        while let Some(t) = todo.pop() {
            let n = self.n(t);
            match n.op {
                _ if self.poly(t)?.m.is_empty() => {}
                Op::FAdd => todo.extend([n.a[0], n.a[1]]),
                Op::Approx(_) => todo.push(n.a[0]),
                Op::FMul if n.a[0] == n.a[1] && square.is_none() => square = Some(n.a[0]),
                _ => return None,
            }
        }
        let x = square?;
        let (iv, p) = (self.base[x as usize], self.poly(x)?);
        if iv.lo >= 0.0 {
            Some((*p).clone())
        } else if iv.hi <= 0.0 {
            p.scale(Q { n: -1, d: 1 })
        } else {
            // |x| = 2 max(x, 0) - x
            self.positive(&p)?.scale(Q { n: 2, d: 1 })?.add(&p, false)
        }
    }

    /// max(x, 0), with x scaled to a leading coefficient of one.
    fn positive(&mut self, x: &Poly) -> Option<Poly> {
        if x.m.len() > 8 {
            return None;
        }
        let q = match x.m.values().next_back() {
            Some(q) => *q,
            None => return Some(Poly::default()),
        };
        let unit = x.scale(q.inv()?)?;
        let l = match unit.as_const() {
            Some(c) => Poly::constant(if c.n > 0 { c } else { Q::ZERO }),
            None => {
                let key = unit.m.iter().map(|(k, q)| (k.clone(), (q.n, q.d))).collect::<Vec<_>>();
                let key = (Op::FMax, vec![key]);
                let l = match self.leafs.get(&key) {
                    Some(l) => *l,
                    None => {
                        let z = self.from_poly(&unit)?;
                        let zero = self.f(0.0);
                        let l = self.raw(Op::FMax, Sort::F, [z, zero, NONE]);
                        self.polys.insert(l, Some(Rc::new(Poly::leaf(l))));
                        self.leafs.insert(key, l);
                        l
                    }
                };
                Poly::leaf(l)
            }
        };
        // max(c z, 0) is c max(z, 0) for positive c and c (z - max(z, 0)) ... c min(z, 0) for negative c
        if q.n > 0 {
            l.scale(q)
        } else {
            unit.add(&l, false)?.scale(q)
        }
    }

    /// The first term built with the same polynomial form, so that differently
    /// written expressions of equal real value reach the solver as one.
    fn share(&mut self, r: T, orig: T) -> T {
        if self.is_const(r).is_some() {
            return r;
        }
        let p = match self.poly(r) {
            Some(p) => p,
            None => return r,
        };
        let key = p.m.iter().map(|(k, q)| (k.clone(), (q.n, q.d))).collect::<Vec<_>>();
        match self.classes.get(&key) {
            Some(u) if *u != r => {
                let u = *u;
                let o = match self.n(r).op {
                    Op::Approx(o) => o,
                    _ => orig,
                };
                self.raw(Op::Approx(o), Sort::F, [u, NONE, NONE])
            }
            Some(_) => r,
            None => {
                self.classes.insert(key, r);
                r
            }
        }
    }

    /// x / y as x times the reciprocal of y (with y scaled to a leading
    /// coefficient of one), where y cannot vanish.
    fn quotient(&mut self, t: T, x: &Poly, y: &Poly) -> Option<Poly> {
        let d = self.base[self.n(t).a[1] as usize];
        if !(d.lo > 0.0 || d.hi < 0.0) {
            return None;
        }
        if let Some(c) = x.multiple_of(y) {
            return Some(Poly::constant(c));
        }
        if x.m.len() > 3 || y.m.len() > 3 && x.as_const().is_none() {
            return None;
        }
        let unit = y.scale(y.m.values().next()?.inv()?)?;
        let key = unit.m.iter().map(|(k, q)| (k.clone(), (q.n, q.d))).collect::<Vec<_>>();
        let key = (Op::FDiv, vec![key]);
        let l = match self.leafs.get(&key) {
            Some(l) => *l,
            None => {
                let (den, unit) = match self.from_poly(&unit) {
                    Some(den) => (den, unit),
                    None => (self.from_poly(y)?, y.clone()),
                };
                let one = self.f(1.0);
                self.lazy = false;
                let l = self.raw(Op::FDiv, Sort::F, [one, den, NONE]);
                self.recips.insert(l, Rc::new(unit));
                self.polys.insert(l, Some(Rc::new(Poly::leaf(l))));
                self.leafs.insert(key, l);
                l
            }
        };
        let c = y.multiple_of(&self.recips[&l])?.inv()?;
        x.mul(&Poly::leaf(l)).and_then(|p| p.scale(c))
    }

    /// A representative with the same real value, so that equal quotients,
    /// roots and extrema of equal operands become the same leaf.
    fn leaf(&mut self, t: T) -> T {
        let n = self.n(t);
        if !matches!(n.op, Op::FDiv | Op::FSqrt | Op::FMin | Op::FMax | Op::FAbs) {
            return t;
        }
        let mut key = vec![];
        for &y in n.a.iter().filter(|y| **y != NONE) {
            match self.poly(y) {
                Some(p) => key.push(p.m.iter().map(|(k, q)| (k.clone(), (q.n, q.d))).collect::<Vec<_>>()),
                None => return t,
            }
        }
        if matches!(n.op, Op::FMin | Op::FMax) {
            key.sort();
        }
        *self.leafs.entry((n.op, key)).or_insert(t)
    }

    fn from_poly(&mut self, p: &Poly) -> Option<T> {
        let mut coefs = vec![];
        for (k, q) in &p.m {
            coefs.push((k.clone(), q.to_f64()?));
        }
        let mut acc: Option<T> = None;
        for (k, c) in coefs {
            let mut m: Option<T> = None;
            for x in k {
                m = Some(match m {
                    None => x,
                    Some(y) => self.raw(Op::FMul, Sort::F, [y, x, NONE]),
                });
            }
            let m = match m {
                None => self.f(c),
                Some(m) if c == 1.0 => m,
                Some(m) if c == -1.0 => self.raw(Op::FNeg, Sort::F, [m, NONE, NONE]),
                Some(m) => {
                    let c = self.f(c);
                    self.raw(Op::FMul, Sort::F, [m, c, NONE])
                }
            };
            acc = Some(match acc {
                None => m,
                Some(y) => self.raw(Op::FAdd, Sort::F, [y, m, NONE]),
            });
        }
        Some(match acc {
            Some(t) => t,
            None => self.f(0.0),
        })
    }

    /// Replaces a term by its cancelled polynomial form when that eliminates
    /// at least one of the leaves it is built from.
    fn cancel(&mut self, t: T) -> T {
        if let Some(r) = self.simp.get(&t) {
            return *r;
        }
        let n = self.n(t);
        let mut r = t;
        if let Some(p) = self.poly(t) {
            let mine = p.leaves();
            let mut under = std::collections::BTreeSet::new();
            for &y in n.a.iter().filter(|y| **y != NONE) {
                if let Some(q) = self.poly(y) {
                    under.extend(q.leaves());
                }
            }
            if !mine.contains(&t) && mine.len() < under.len() || mine.is_empty() {
                if let Some(s) = self.from_poly(&p) {
                    r = self.raw(Op::Approx(t), Sort::F, [s, NONE, NONE]);
                }
            }
        }
        self.simp.insert(t, r);
        r
    }

    /// Decides a comparison from value bounds or from the polynomial form.
    fn decide_cmp(&mut self, op: Op, a: T, b: T) -> Option<bool> {
        let (x, y) = (self.fb[a as usize], self.fb[b as usize]);
        match op {
            Op::FLt => {
                if x.1 < y.0 {
                    return Some(true);
                }
                if x.0 >= y.1 {
                    return Some(false);
                }
            }
            Op::FLe => {
                if x.1 <= y.0 {
                    return Some(true);
                }
                if x.0 > y.1 {
                    return Some(false);
                }
            }
            _ => {
                if x.1 < y.0 || x.0 > y.1 {
                    return Some(false);
                }
            }
        }
        // adding or subtracting a non-negative amount is monotone under rounding
        if op == Op::FLe {
            let (na, nb) = (self.n(a), self.n(b));
            for k in 0..2 {
                if nb.op == Op::FAdd && nb.a[k] == a && self.fb[nb.a[1 - k] as usize].0 >= 0.0 {
                    return Some(true);
                }
                if na.op == Op::FAdd && na.a[k] == b && self.fb[na.a[1 - k] as usize].1 <= 0.0 {
                    return Some(true);
                }
            }
            if na.op == Op::FSub && na.a[0] == b && self.fb[na.a[1] as usize].0 >= 0.0 {
                return Some(true);
            }
            if nb.op == Op::FSub && nb.a[0] == a && self.fb[nb.a[1] as usize].1 <= 0.0 {
                return Some(true);
            }
        }
        let d = self.base[a as usize].err + self.base[b as usize].err;
        if !d.is_finite() || self.risk[a as usize].is_some() || self.risk[b as usize].is_some() {
            return None;
        }
        let (p, q) = (self.poly(a)?, self.poly(b)?);
        let p = p.add(&q, false)?;
        let (lo, hi) = self.poly_range(&p);
        // value(a) - value(b) lies in [lo - d, hi + d]
        let (lo, hi) = (dn(lo - d), up(hi + d));
        match op {
            Op::FLt if hi < 0.0 => Some(true),
            Op::FLt if lo > 0.0 => Some(false),
            Op::FLe if hi < 0.0 => Some(true),
            Op::FLe if lo > 0.0 => Some(false),
            Op::FEq if hi < 0.0 || lo > 0.0 => Some(false),
            _ => None,
        }
    }

    fn poly_range(&self, p: &Poly) -> (f64, f64) {
        let (mut lo, mut hi) = (0.0f64, 0.0f64);
        for (k, q) in &p.m {
            let c = q.approx();
            // coefficient enclosure (a few ulps for the two conversions and the division)
            let (mut l, mut h) = (c - c.abs() * 4.0 * U, c + c.abs() * 4.0 * U);
            let mut i = 0;
            while i < k.len() {
                let b = self.base[k[i] as usize];
                let (bl, bh) = if i + 1 < k.len() && k[i + 1] == k[i] {
                    i += 1;
                    let m = b.lo.abs().max(b.hi.abs());
                    let lo2 = if b.lo > 0.0 { dn(b.lo * b.lo) } else if b.hi < 0.0 { dn(b.hi * b.hi) } else { 0.0 };
                    (lo2, up(m * m))
                } else {
                    (b.lo, b.hi)
                };
                i += 1;
                let v = [mul0(l, bl), mul0(l, bh), mul0(h, bl), mul0(h, bh)];
                l = dn(v.iter().cloned().fold(f64::INFINITY, f64::min));
                h = up(v.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
            }
            lo = dn(lo + l);
            hi = up(hi + h);
        }
        if lo.is_nan() || hi.is_nan() {
            return (f64::NEG_INFINITY, f64::INFINITY);
        }
        (lo, hi)
    }

    /// Bounds on the IEEE value of a float term (round-to-nearest is monotone).
    fn value_bounds(&self, n: Node, iv: Iv) -> (f64, f64) {
        let nan = |k: usize| self.nan[n.a[k] as usize];
        let g = |k: usize| self.fb[n.a[k] as usize];
        let full = (f64::NEG_INFINITY, f64::INFINITY);
        let corners = |v: [f64; 4]| (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
        let r = match n.op {
            Op::FC(b) => {
                let c = f64::from_bits(b);
                if c.is_nan() { full } else { (c, c) }
            }
            Op::Var(i) => (self.vars[i as usize].flo, self.vars[i as usize].fhi),
            Op::Ite => (g(1).0.min(g(2).0), g(1).1.max(g(2).1)),
            Op::FAdd => (g(0).0 + g(1).0, g(0).1 + g(1).1),
            Op::FSub => (g(0).0 - g(1).1, g(0).1 - g(1).0),
            Op::FMul if n.a[0] == n.a[1] => {
                let (l, h) = g(0);
                let m = l.abs().max(h.abs());
                (if l > 0.0 { l * l } else if h < 0.0 { h * h } else { 0.0 }, m * m)
            }
            Op::FMul => {
                let (a, b) = (g(0), g(1));
                corners([mul0(a.0, b.0), mul0(a.0, b.1), mul0(a.1, b.0), mul0(a.1, b.1)])
            }
            Op::FDiv => {
                let (a, b) = (g(0), g(1));
                if b.0 > 0.0 || b.1 < 0.0 {
                    let v = [a.0 / b.0, a.0 / b.1, a.1 / b.0, a.1 / b.1];
                    if v.iter().any(|x| x.is_nan()) { full } else { corners(v) }
                } else {
                    full
                }
            }
            Op::FNeg => (-g(0).1, -g(0).0),
            Op::FAbs => {
                let (l, h) = g(0);
                (if l > 0.0 { l } else if h < 0.0 { -h } else { 0.0 }, l.abs().max(h.abs()))
            }
            Op::FSqrt => (g(0).0.max(0.0).sqrt(), g(0).1.max(0.0).sqrt()),
            // an operand that is not a number does not count
            Op::FMin => (g(0).0.min(g(1).0), if nan(0) { g(1).1 } else if nan(1) { g(0).1 } else { g(0).1.min(g(1).1) }),
            Op::FMax => (if nan(0) { g(1).0 } else if nan(1) { g(0).0 } else { g(0).0.max(g(1).0) }, g(0).1.max(g(1).1)),
            Op::FFloor => (g(0).0.floor(), g(0).1.floor()),
            Op::FCeil => (g(0).0.ceil(), g(0).1.ceil()),
            Op::FTrunc => (g(0).0.trunc(), g(0).1.trunc()),
            Op::UToF => {
                let a = self.base[n.a[0] as usize];
                (a.ilo as f64, a.ihi as f64)
            }
            Op::Approx(o) => self.fb[o as usize],
            _ => full,
        };
        let r = if r.0.is_nan() || r.1.is_nan() { full } else { r };
        if n.a.iter().any(|x| *x != NONE && self.risk[*x as usize].is_some()) {
            return r;
        }
        let (l, h) = (dn(iv.lo - iv.err), up(iv.hi + iv.err));
        (if l > r.0 { l } else { r.0 }, if h < r.1 { h } else { r.1 })
    }

    pub fn width(&self, t: T) -> u32 {
        match self.sort(t) {
            Sort::I(w) => w,
            Sort::B => 1,
            Sort::F => 64,
        }
    }

    fn const_leaves(&self, t: T, depth: u32) -> usize {
        let n = self.n(t);
        match n.op {
            Op::IC(_) | Op::BC(_) | Op::FC(_) => 1,
            Op::Ite if depth > 0 => {
                let p = self.const_leaves(n.a[1], depth - 1);
                let q = self.const_leaves(n.a[2], depth - 1);
                if p == 0 || q == 0 {
                    0
                } else {
                    p + q
                }
            }
            _ => 0,
        }
    }

    // ------------------------------------------------------------ evaluation

    /// Evaluates a term with concrete IEEE-754 semantics.
    pub fn eval(&self, t: T, model: &HashMap<u32, CV>, memo: &mut HashMap<T, CV>) -> Option<CV> {
        if let Some(v) = self.is_const(t) {
            return Some(v);
        }
        if let Some(v) = memo.get(&t) {
            return Some(*v);
        }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            let v = match n.op {
                Op::BC(_) | Op::FC(_) | Op::IC(_) => self.is_const(x),
                Op::Var(i) => Some(*model.get(&i)?),
                Op::Approx(o) => match memo.get(&o).copied().or(self.is_const(o)) {
                    None => {
                        stack.push(o);
                        continue;
                    }
                    v => v,
                },
                Op::Ite => {
                    // lazy: only the taken branch
                    match memo.get(&n.a[0]).copied().or(self.is_const(n.a[0])) {
                        None => {
                            stack.push(n.a[0]);
                            continue;
                        }
                        Some(CV::B(c)) => {
                            let y = if c { n.a[1] } else { n.a[2] };
                            match memo.get(&y).copied().or(self.is_const(y)) {
                                None => {
                                    stack.push(y);
                                    continue;
                                }
                                v => v,
                            }
                        }
                        _ => return None,
                    }
                }
                _ => {
                    let mut vals = vec![];
                    let mut pend = false;
                    for &y in n.a.iter().filter(|y| **y != NONE) {
                        match memo.get(&y).copied().or(self.is_const(y)) {
                            None => {
                                stack.push(y);
                                pend = true;
                            }
                            Some(v) => vals.push(v),
                        }
                    }
                    if pend {
                        continue;
                    }
                    apply(n.op, n.sort, self.sort(n.a[0]), &vals)
                }
            };
            memo.insert(x, v?);
            stack.pop();
        }
        memo.get(&t).copied()
    }

    pub fn vars_of(&self, t: T, out: &mut std::collections::BTreeSet<u32>, seen: &mut std::collections::HashSet<T>) {
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = self.n(x);
            if let Op::Var(i) = n.op {
                out.insert(i);
            }
            if let Op::Approx(o) = n.op {
                st.push(o);
            }
            for &y in n.a.iter().filter(|y| **y != NONE) {
                st.push(y);
            }
        }
    }

    // ------------------------------------------------------------ intervals

    pub fn full(&self, s: Sort) -> Iv {
        match s {
            Sort::B => Iv { lo: 0.0, hi: 1.0, err: 0.0, ilo: 0, ihi: 1 },
            Sort::F => Iv { lo: f64::NEG_INFINITY, hi: f64::INFINITY, err: f64::INFINITY, ilo: 0, ihi: 0 },
            Sort::I(w) => Iv { lo: 0.0, hi: 0.0, err: 0.0, ilo: 0, ihi: mask(w) },
        }
    }

    /// Forward interval / rounding-error transfer for a node.
    /// For float terms: the *real* value of the term lies in [lo,hi] and the
    /// value computed by IEEE arithmetic differs from it by at most `err`.
    pub fn forward(&self, n: Node, get: impl Fn(&Terms, T) -> Iv) -> Iv {
        let mut r = self.full(n.sort);
        let g = |k: usize| get(self, n.a[k]);
        match n.sort {
            Sort::F => {
                if !self.real {
                    return r;
                }
                self.forward_f(n, &g, &mut r);
                if r.lo.is_nan() || r.hi.is_nan() {
                    r.lo = f64::NEG_INFINITY;
                    r.hi = f64::INFINITY;
                }
                if r.err.is_nan() {
                    r.err = f64::INFINITY;
                }
            }
            Sort::I(w) => self.forward_i(n, w, &g, &mut r),
            Sort::B => self.forward_b(n, &g, &mut r),
        }
        r
    }

    fn forward_b(&self, n: Node, g: &dyn Fn(usize) -> Iv, r: &mut Iv) {
        let set = |r: &mut Iv, v: bool| {
            r.ilo = v as u128;
            r.ihi = v as u128;
        };
        match n.op {
            Op::BC(b) => set(r, b),
            Op::Not => {
                let a = g(0);
                r.ilo = 1 - a.ihi;
                r.ihi = 1 - a.ilo;
            }
            Op::And => {
                let (a, b) = (g(0), g(1));
                r.ilo = a.ilo.min(b.ilo);
                r.ihi = a.ihi.min(b.ihi);
            }
            Op::Or => {
                let (a, b) = (g(0), g(1));
                r.ilo = a.ilo.max(b.ilo);
                r.ihi = a.ihi.max(b.ihi);
            }
            Op::Ite => {
                let c = g(0);
                let (a, b) = (g(1), g(2));
                if c.ilo == 1 {
                    *r = a;
                } else if c.ihi == 0 {
                    *r = b;
                } else {
                    r.ilo = a.ilo.min(b.ilo);
                    r.ihi = a.ihi.max(b.ihi);
                }
            }
            Op::FLt | Op::FLe | Op::FEq if self.real => {
                let (a, b) = (g(0), g(1));
                let d = a.err + b.err;
                if !d.is_finite() {
                    return;
                }
                match n.op {
                    Op::FLt => {
                        if up(a.hi + d) < b.lo {
                            set(r, true)
                        } else if d == 0.0 && a.lo >= b.hi || dn(a.lo - d) > b.hi {
                            set(r, false)
                        }
                    }
                    Op::FLe => {
                        if d == 0.0 && a.hi <= b.lo || up(a.hi + d) < b.lo {
                            set(r, true)
                        } else if dn(a.lo - d) > b.hi {
                            set(r, false)
                        }
                    }
                    _ => {
                        if up(a.hi + d) < b.lo || dn(a.lo - d) > b.hi {
                            set(r, false)
                        }
                    }
                }
            }
            Op::IEq => {
                let (a, b) = (g(0), g(1));
                if a.ihi < b.ilo || b.ihi < a.ilo {
                    set(r, false)
                } else if a.ilo == a.ihi && b.ilo == b.ihi && a.ilo == b.ilo {
                    set(r, true)
                }
            }
            Op::Ult => {
                let (a, b) = (g(0), g(1));
                if a.ihi < b.ilo {
                    set(r, true)
                } else if a.ilo >= b.ihi {
                    set(r, false)
                }
            }
            Op::Ule => {
                let (a, b) = (g(0), g(1));
                if a.ihi <= b.ilo {
                    set(r, true)
                } else if a.ilo > b.ihi {
                    set(r, false)
                }
            }
            _ => {}
        }
    }

    fn forward_i(&self, n: Node, w: u32, g: &dyn Fn(usize) -> Iv, r: &mut Iv) {
        let m = mask(w);
        match n.op {
            Op::IC(v) => {
                r.ilo = v;
                r.ihi = v;
            }
            Op::Var(i) => {
                r.ilo = self.vars[i as usize].ilo;
                r.ihi = self.vars[i as usize].ihi;
            }
            Op::Ite => {
                let c = g(0);
                let (a, b) = (g(1), g(2));
                if c.ilo == 1 {
                    *r = a;
                } else if c.ihi == 0 {
                    *r = b;
                } else {
                    r.ilo = a.ilo.min(b.ilo);
                    r.ihi = a.ihi.max(b.ihi);
                }
            }
            Op::Add => {
                let (a, b) = (g(0), g(1));
                if w < 128 {
                    let (lo, hi) = (a.ilo + b.ilo, a.ihi + b.ihi);
                    if hi <= m {
                        r.ilo = lo;
                        r.ihi = hi;
                    } else if lo > m {
                        r.ilo = lo - m - 1;
                        r.ihi = hi - m - 1;
                    }
                }
            }
            Op::Sub => {
                let (a, b) = (g(0), g(1));
                if a.ilo >= b.ihi {
                    r.ilo = a.ilo - b.ihi;
                    r.ihi = a.ihi - b.ilo;
                }
            }
            Op::Mul => {
                let (a, b) = (g(0), g(1));
                if let Some(hi) = a.ihi.checked_mul(b.ihi) {
                    if hi <= m {
                        r.ilo = a.ilo * b.ilo;
                        r.ihi = hi;
                    }
                }
            }
            Op::UDiv => {
                let (a, b) = (g(0), g(1));
                if b.ilo > 0 {
                    r.ilo = a.ilo / b.ihi;
                    r.ihi = a.ihi / b.ilo;
                } else {
                    r.ihi = a.ihi;
                }
            }
            Op::URem => {
                let (a, b) = (g(0), g(1));
                r.ihi = a.ihi.min(b.ihi.saturating_sub(1));
            }
            Op::LShr => {
                let (a, b) = (g(0), g(1));
                if b.ihi < 128 {
                    r.ilo = a.ilo >> b.ihi;
                    r.ihi = a.ihi >> b.ilo;
                }
            }
            Op::IAnd => {
                let (a, b) = (g(0), g(1));
                r.ihi = a.ihi.min(b.ihi);
            }
            Op::IOr | Op::IXor => {
                let (a, b) = (g(0), g(1));
                let h = a.ihi | b.ihi;
                let bits = 128 - h.leading_zeros();
                r.ihi = mask(bits).min(m);
                if bits == 0 {
                    r.ihi = 0;
                }
                if n.op == Op::IOr {
                    r.ilo = a.ilo.max(b.ilo);
                }
            }
            Op::ZExt => *r = g(0),
            Op::Trunc => {
                let a = g(0);
                if a.ihi <= m {
                    *r = a;
                }
            }
            Op::B2I => *r = Iv { lo: 0.0, hi: 0.0, err: 0.0, ..g(0) },
            Op::Ctpop | Op::Cttz => r.ihi = (w as u128).min(m),
            Op::FToU => {
                let a = g(0);
                if self.real && a.err.is_finite() {
                    let lo = a.lo - a.err;
                    let hi = a.hi + a.err;
                    r.ilo = if lo > 0.0 { (lo as u128).min(m) } else { 0 };
                    r.ihi = if hi > 0.0 { (hi as u128).min(m) } else { 0 };
                }
            }
            Op::FToS => {
                let a = g(0);
                if self.real && a.err.is_finite() {
                    let lo = a.lo - a.err;
                    let hi = a.hi + a.err;
                    if lo >= 0.0 {
                        let mm = m >> 1;
                        r.ilo = (lo as u128).min(mm);
                        r.ihi = (hi as u128).min(mm);
                    }
                }
            }
            _ => {}
        }
    }

    fn forward_f(&self, n: Node, g: &dyn Fn(usize) -> Iv, r: &mut Iv) {
        let mag = |i: &Iv| i.lo.abs().max(i.hi.abs());
        match n.op {
            Op::FC(b) => {
                let c = f64::from_bits(b);
                r.lo = c;
                r.hi = c;
                r.err = 0.0;
                if !c.is_finite() {
                    // handled specially everywhere; no finite interval
                    r.err = 0.0;
                    if c.is_nan() {
                        r.lo = f64::NEG_INFINITY;
                        r.hi = f64::INFINITY;
                        r.err = f64::INFINITY;
                    }
                } else if !short_const(c) {
                    // printed in decimal; both the decimal and the binary value
                    // lie within one ulp of each other
                    let s = snap(c);
                    r.lo = dn(s);
                    r.hi = up(s);
                    r.err = up(up(c.abs() * U * 2.0) + (c - s).abs());
                }
            }
            Op::Var(i) => {
                r.lo = self.vars[i as usize].flo;
                r.hi = self.vars[i as usize].fhi;
                r.err = 0.0;
            }
            Op::Ite => {
                let c = g(0);
                let (a, b) = (g(1), g(2));
                if c.ilo == 1 {
                    *r = a;
                } else if c.ihi == 0 {
                    *r = b;
                } else {
                    r.lo = a.lo.min(b.lo);
                    r.hi = a.hi.max(b.hi);
                    r.err = a.err.max(b.err);
                }
            }
            Op::FAdd | Op::FSub => {
                let a = g(0);
                let mut b = g(1);
                if n.op == Op::FSub {
                    b = Iv { lo: -b.hi, hi: -b.lo, ..b };
                }
                r.lo = dn(a.lo + b.lo);
                r.hi = up(a.hi + b.hi);
                let e = a.err + b.err;
                r.err = up(up(e) + up((mag(r) + e) * U * 1.01));
            }
            Op::FMul => {
                let (a, b) = (g(0), g(1));
                if n.a[0] == n.a[1] {
                    let m = mag(&a);
                    r.hi = up(m * m);
                    r.lo = if a.lo > 0.0 { dn(a.lo * a.lo) } else if a.hi < 0.0 { dn(a.hi * a.hi) } else { 0.0 };
                } else {
                    let p = [mul0(a.lo, b.lo), mul0(a.lo, b.hi), mul0(a.hi, b.lo), mul0(a.hi, b.hi)];
                    r.lo = dn(p.iter().cloned().fold(f64::INFINITY, f64::min));
                    r.hi = up(p.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
                    if (a.lo >= 0.0 && b.lo >= 0.0) || (a.hi <= 0.0 && b.hi <= 0.0) {
                        r.lo = r.lo.max(0.0);
                    }
                }
                let e = mul0(mag(&a), b.err) + mul0(mag(&b), a.err) + a.err * b.err;
                r.err = up(e * 1.0000001 + (mag(r) + e) * U * 1.01 + 1e-320);
            }
            Op::FDiv => {
                let (a, b) = (g(0), g(1));
                if b.lo > 0.0 || b.hi < 0.0 {
                    let p = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi];
                    r.lo = dn(p.iter().cloned().fold(f64::INFINITY, f64::min));
                    r.hi = up(p.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
                    if a.lo >= 0.0 && b.lo > 0.0 {
                        r.lo = r.lo.max(0.0);
                    }
                    let m = b.lo.abs().min(b.hi.abs()) - b.err;
                    if m > 0.0 {
                        let e = (a.err + mul0(mag(r), b.err)) / m;
                        r.err = up(e * 1.0000001 + (mag(r) + e) * U * 1.01 + 1e-320);
                    } else {
                        r.err = f64::INFINITY;
                    }
                }
            }
            Op::Approx(o) => {
                *r = g(0);
                r.err = self.base[o as usize].err;
            }
            Op::FNeg => {
                let a = g(0);
                *r = Iv { lo: -a.hi, hi: -a.lo, ..a };
            }
            Op::FAbs => {
                let a = g(0);
                r.err = a.err;
                if a.lo >= 0.0 {
                    *r = a;
                } else if a.hi <= 0.0 {
                    *r = Iv { lo: -a.hi, hi: -a.lo, ..a };
                } else {
                    r.lo = 0.0;
                    r.hi = mag(&a);
                }
            }
            Op::FSqrt => {
                let a = g(0);
                r.lo = dn(a.lo.max(0.0).sqrt()).max(0.0);
                r.hi = up(a.hi.max(0.0).sqrt());
                if a.err == 0.0 {
                    r.err = up(r.hi * U * 1.01);
                } else {
                    let e1 = a.err.sqrt();
                    let base = (a.lo - a.err).max(0.0).sqrt() + a.lo.max(0.0).sqrt();
                    let e2 = if base > 0.0 { a.err / base } else { f64::INFINITY };
                    let e = up(up(e1.min(e2)));
                    r.err = up(e + (r.hi + e) * U * 1.01);
                }
            }
            Op::FMin => {
                let (a, b) = (g(0), g(1));
                r.lo = a.lo.min(b.lo);
                r.hi = a.hi.min(b.hi);
                r.err = a.err.max(b.err);
            }
            Op::FMax => {
                let (a, b) = (g(0), g(1));
                r.lo = a.lo.max(b.lo);
                r.hi = a.hi.max(b.hi);
                r.err = a.err.max(b.err);
            }
            Op::FFloor | Op::FCeil | Op::FTrunc => {
                let a = g(0);
                r.lo = (a.lo - a.err).floor();
                r.hi = (a.hi + a.err).ceil();
                r.err = 0.0;
            }
            Op::UToF => {
                let a = g(0);
                if a.ihi <= 1u128 << 53 {
                    r.lo = a.ilo as f64;
                    r.hi = a.ihi as f64;
                    r.err = 0.0;
                } else {
                    r.lo = dn(a.ilo as f64);
                    r.hi = up(a.ihi as f64);
                    r.err = up(r.hi * U * 1.01);
                }
            }
            Op::SToF => {
                let a = g(0);
                let w = self.width(n.a[0]);
                if a.ihi < 1u128 << (w - 1) && a.ihi <= 1u128 << 53 {
                    r.lo = a.ilo as f64;
                    r.hi = a.ihi as f64;
                    r.err = 0.0;
                } else {
                    let m = 2f64.powi(w as i32 - 1);
                    r.lo = -m;
                    r.hi = m;
                    r.err = up(m * U * 1.01);
                }
            }
            _ => {}
        }
    }
}

fn mul0(a: f64, b: f64) -> f64 {
    if a == 0.0 || b == 0.0 {
        0.0
    } else {
        a * b
    }
}

/// Constants whose decimal rendering is exact.
pub fn short_const(c: f64) -> bool {
    if c == 0.0 {
        return true;
    }
    let s = c.abs();
    s < 1e12 && s * 1048576.0 == (s * 1048576.0).floor() && (s * 1048576.0) < 9e15
}

/// The real number standing for a constant: a decimal of nine places if the
/// constant is that but for rounding. The error bound covers the difference.
pub fn snap(c: f64) -> f64 {
    if short_const(c) || !c.is_finite() || c.abs() > 1e5 {
        return c;
    }
    let s = (c * 1e9).round() / 1e9;
    if (c - s).abs() <= 1e-12 * c.abs().max(1.0) && s != 0.0 {
        s
    } else {
        c
    }
}

/// Concrete semantics of an operator.
pub fn apply(op: Op, sort: Sort, s0: Sort, v: &[CV]) -> Option<CV> {
    let f = |k: usize| match v[k] {
        CV::F(x) => x,
        _ => f64::NAN,
    };
    let i = |k: usize| match v[k] {
        CV::I(x) => x,
        CV::B(b) => b as u128,
        _ => 0,
    };
    let b = |k: usize| matches!(v[k], CV::B(true));
    let w = match sort {
        Sort::I(w) => w,
        _ => 64,
    };
    let w0 = match s0 {
        Sort::I(w) => w,
        _ => 1,
    };
    let m = mask(w);
    Some(match op {
        Op::Not => CV::B(!b(0)),
        Op::And => CV::B(b(0) && b(1)),
        Op::Or => CV::B(b(0) || b(1)),
        Op::Xor => CV::B(b(0) != b(1)),
        Op::Ite => if b(0) { v[1] } else { v[2] },
        Op::FLt => CV::B(f(0) < f(1)),
        Op::FLe => CV::B(f(0) <= f(1)),
        Op::FEq => CV::B(f(0) == f(1)),
        Op::FNan => CV::B(f(0).is_nan()),
        Op::IEq => CV::B(i(0) == i(1)),
        Op::Ult => CV::B(i(0) < i(1)),
        Op::Ule => CV::B(i(0) <= i(1)),
        Op::Slt => CV::B(sext(i(0), w0) < sext(i(1), w0)),
        Op::Sle => CV::B(sext(i(0), w0) <= sext(i(1), w0)),
        Op::Add => CV::I(i(0).wrapping_add(i(1)) & m),
        Op::Sub => CV::I(i(0).wrapping_sub(i(1)) & m),
        Op::Mul => CV::I(i(0).wrapping_mul(i(1)) & m),
        Op::UDiv => CV::I(i(0).checked_div(i(1))?),
        Op::URem => CV::I(i(0).checked_rem(i(1))?),
        Op::SDiv => CV::I(sext(i(0), w).checked_div(sext(i(1), w))? as u128 & m),
        Op::SRem => CV::I(sext(i(0), w).checked_rem(sext(i(1), w))? as u128 & m),
        Op::Shl => CV::I(if i(1) >= w as u128 { 0 } else { (i(0) << i(1)) & m }),
        Op::LShr => CV::I(if i(1) >= w as u128 { 0 } else { i(0) >> i(1) }),
        Op::AShr => CV::I((sext(i(0), w) >> i(1).min(127)) as u128 & m),
        Op::IAnd => CV::I(i(0) & i(1)),
        Op::IOr => CV::I(i(0) | i(1)),
        Op::IXor => CV::I(i(0) ^ i(1)),
        Op::ZExt => CV::I(i(0)),
        Op::SExt => CV::I(sext(i(0), w0) as u128 & m),
        Op::Trunc => CV::I(i(0) & m),
        Op::B2I => CV::I(i(0)),
        Op::Ctpop => CV::I(i(0).count_ones() as u128),
        Op::Cttz => CV::I(if i(0) == 0 { w as u128 } else { i(0).trailing_zeros() as u128 }),
        Op::FAdd => CV::F(f(0) + f(1)),
        Op::FSub => CV::F(f(0) - f(1)),
        Op::FMul => CV::F(f(0) * f(1)),
        Op::FDiv => CV::F(f(0) / f(1)),
        Op::FNeg => CV::F(-f(0)),
        Op::FAbs => CV::F(f(0).abs()),
        Op::FSqrt => CV::F(f(0).sqrt()),
        Op::FMin => CV::F(f(0).min(f(1))),
        Op::FMax => CV::F(f(0).max(f(1))),
        Op::FFloor => CV::F(f(0).floor()),
        Op::FCeil => CV::F(f(0).ceil()),
        Op::FTrunc => CV::F(f(0).trunc()),
        Op::FToU => {
            let x = f(0);
            CV::I(if x > 0.0 { (x as u128).min(m) } else { 0 })
        }
        Op::FToS => {
            let x = f(0);
            let hi = (m >> 1) as i128;
            CV::I((x as i128).clamp(-hi - 1, hi) as u128 & m)
        }
        Op::UToF => CV::F(i(0) as f64),
        Op::SToF => CV::F(sext(i(0), w0) as f64),
        Op::Bits => CV::I(f(0).to_bits() as u128),
        Op::FromBits => CV::F(f64::from_bits(i(0) as u64)),
        Op::BC(_) | Op::FC(_) | Op::IC(_) | Op::Var(_) | Op::Approx(_) => return None,
    })
}
