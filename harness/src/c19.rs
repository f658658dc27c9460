//! C19: intervals and lookup tables.

use crate::sym;
use crate::util::*;
use traffic_sim::math::LookupTable;
use traffic_sim::Interval;

fn any(n: &str) -> f64 {
    sym::f64(n, -1e6, 1e6)
}

fn interval(a: &str, b: &str) -> Interval<f64> {
    let i = Interval::new(any(a), any(b));
    sym::assume(i.min <= i.max);
    i
}

harnesses! {
    fn h_c19_pairs() {
        let (a, b) = (interval("a0", "a1"), interval("b0", "b1"));
        let gap = a.clearance_with(&b);
        sym::note("gap", gap);
        // 1e-6 for rounding
        sym::check(a.overlaps(&b) | (gap >= -1e-6), "apart-unless-overlapping");
        sym::check(!a.overlaps(&b) | (gap <= 1e-6), "no-gap-when-overlapping");
        sym::check(a.overlaps(&b) == b.overlaps(&a), "overlap-symmetric");
        sym::check(close(gap, b.clearance_with(&a)), "gap-symmetric");
        let apart = if a.max <= b.min { b.min - a.max } else if b.max <= a.min { a.min - b.max } else { -1.0 };
        sym::check((apart < 0.0) | close(gap, apart), "gap-is-the-space-between");
        sym::cover(a.overlaps(&b), "overlap");
        sym::cover(!a.overlaps(&b), "apart");
    }

    fn h_c19_points() {
        let (a, x) = (interval("a0", "a1"), any("x"));
        let d = a.distance(x);
        sym::note("distance", d);
        sym::check(a.contains(x) == ((a.min <= x) & (x <= a.max)), "contains");
        sym::check(!a.contains(x) | (d <= 1e-6), "no-distance-inside");
        sym::check(a.contains(x) | (d >= -1e-6), "distance-outside");
        sym::check((x < a.max) | close(d, x - a.max), "distance-above");
        sym::check((x > a.min) | close(d, a.min - x), "distance-below");
        sym::cover(a.contains(x), "inside");
        sym::cover(x > a.max, "above");
    }

    fn h_c19_algebra() {
        let (a, x) = (interval("a0", "a1"), any("x"));
        sym::note("length", a.length());
        sym::check(close(a.length(), a.max - a.min), "length");
        sym::check(close(a.midpoint() - a.min, a.max - a.midpoint()), "midpoint");
        let m = a + x;
        sym::check(close(m.min, a.min + x) & close(m.max, a.max + x), "shift");
        let m = a - x;
        sym::check(close(m.min, a.min - x) & close(m.max, a.max - x), "shift-back");
        let [p, q] = a.as_array();
        sym::check((p == a.min) & (q == a.max), "as-array");
        let r = sym::f64("r", 0.0, 1e6);
        let d = Interval::disc(x, r);
        sym::check(close(d.midpoint(), x) & close(d.length(), 2.0 * r), "disc");
        sym::check(a == Interval::new(a.min, a.max), "equal-to-itself");
    }

    fn h_c19_lerp() {
        let a = Interval::new(sym::f64("a0", -1e3, 1e3), sym::f64("a1", -1e3, 1e3));
        sym::assume((a.max - a.min).abs() > 0.1);
        let t = sym::f64("t", -2.0, 3.0);
        sym::note("lerp", a.lerp(t));
        sym::check(close(a.lerp(0.0), a.min) & close(a.lerp(1.0), a.max), "lerp-ends");
        sym::check(close(a.inv_lerp(a.min), 0.0) & close(a.inv_lerp(a.max), 1.0), "inverse-ends");
        sym::check(close(a.inv_lerp(a.lerp(t)), t), "inverse-undoes-lerp");
        let x = sym::f64("x", -1e3, 1e3);
        sym::check(close(1e-4 * a.lerp(a.inv_lerp(x)), 1e-4 * x), "lerp-undoes-inverse");
        sym::check(close(a.lerp(0.5), a.midpoint()), "half-way-is-the-midpoint");
    }

    // Number, place and order of the cells; every argument is served by the nearest.
    fn h_c19_table() {
        let n = sym::choice("cells", 1, 6);
        let (min, step) = (any("min"), sym::f64("step", 0.5, 100.0));
        let part = sym::f64("part", 0.01, 0.99);
        let mut count = 0;
        let mut first = 0.0;
        let mut last = 0.0;
        let range = Interval::new(min, min + (n as f64 - part) * step);
        let table = LookupTable::from_samples(range, step, |x| {
            if count == 0 {
                first = x;
            }
            last = x;
            count += 1;
            (count - 1) as f64
        });
        sym::check(count == n, "one-value-per-step");
        sym::check(close(first, min + 0.5 * step), "first-cell-centre");
        sym::check(close(last, min + (n as f64 - 0.5) * step), "last-cell-centre");
        let x = min + sym::f64("x", -3.0, 9.0) * step;
        let v = *table.sample(x);
        sym::note("value", v);
        let cell = (x - min) / step;
        sym::check((cell >= v - TOL) | (v == 0.0), "not-below-the-cell");
        sym::check((cell <= v + 1.0 + TOL) | (v == n as f64 - 1.0), "not-above-the-cell");
        sym::check((v >= 0.0) & (v < n as f64), "an-existing-cell");
        sym::cover(cell < 0.0, "below-the-range");
    }

    // Every bit pattern.
    fn h_c19_lookup_any() {
        let table = LookupTable::from_samples(Interval::new(10.0, 60.0), 5.0, |x| x);
        let x = f64::from_bits(sym::int("bits", 0, u64::MAX));
        let v = *table.sample(x);
        sym::note("value", v);
        sym::check((v >= 12.5) & (v <= 57.5), "an-existing-cell");
        sym::check(!(x < 15.0) | (v == 12.5), "first-cell-below-the-range");
        sym::check(!(x >= 55.0) | (v == 57.5), "last-cell-above-the-range");
        sym::cover(x.is_nan(), "not-a-number");
        sym::cover(x == f64::INFINITY, "infinity");
    }

    fn h_c19_interval_any() {
        let f = |n: &str| f64::from_bits(sym::int(n, 0, u64::MAX));
        let (a, b) = (Interval::new(f("a0"), f("a1")), Interval::new(f("b0"), f("b1")));
        let x = f("x");
        sym::check(!a.contains(x) | ((x >= a.min) & (x <= a.max)), "contains");
        sym::check(!x.is_nan() | !a.contains(x), "contains-no-nan");
        sym::check(a.overlaps(&b) == b.overlaps(&a), "overlap-symmetric");
        sym::note("overlaps", a.overlaps(&b) as u8 as f64);
        sym::cover(a.contains(x), "inside");
    }
}
