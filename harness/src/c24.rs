//! C24: cutting curves into pieces.

use crate::sym;
use crate::util::*;
use traffic_sim::math::{
    equidistant_points_along_curve, subdivided_points_along_curve, subdivided_samples_along_curve, CubicBezier2d, LineSegment2d,
    ParametricCurve2d, Point2d, QuadraticBezier2d,
};

fn p(x: f64, y: f64) -> Point2d {
    Point2d::new(x, y)
}

fn dist2(a: Point2d, b: Point2d) -> f64 {
    (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)
}

/// Cuts the curve, checks what holds for all, and returns the points.
fn cut(curve: &impl ParametricCurve2d, most: f64) -> Vec<(f64, Point2d)> {
    let s: Vec<_> = subdivided_samples_along_curve(curve, most).collect();
    let q = subdivided_points_along_curve(curve, most);
    let b = curve.bounds();
    let n = s.len();
    sym::note("pieces", n as f64);
    sym::check(n >= 3, "at-least-halved");
    sym::check((s[0].0 == b.min) & close(s[n - 1].0, b.max), "from-end-to-end");
    sym::check(q.len() == n, "as-many-points");
    for k in 0..n {
        let (t, a) = s[k];
        let on = curve.sample(t);
        sym::check(close(a.x, on.x) & close(a.y, on.y), "on-the-curve");
        sym::check((q[k].x == a.x) & (q[k].y == a.y), "the-same-points");
        if k > 0 {
            sym::check(s[k - 1].0 < t, "in-order");
            sym::check(dist2(s[k - 1].1, a) <= most * most + TOL, "fine-enough");
        }
    }
    s
}

fn evenly(from: Point2d, to: Point2d, len: f64, step: f64) {
    let (q, length) = equidistant_points_along_curve(&LineSegment2d::from_ends(from, to), step);
    let n = q.len();
    sym::note("points", n as f64);
    sym::note("length", length);
    sym::check(close(q[0].x, from.x) & close(q[0].y, from.y), "starts-at-the-start");
    sym::check((length - len).abs() <= 0.01 * len + TOL, "length");
    let mut last = 0.0;
    for k in 1..n {
        let x = ((q[k].x - from.x) * (to.x - from.x) + (q[k].y - from.y) * (to.y - from.y)) / len;
        let y = (q[k].x - from.x) * (to.y - from.y) - (q[k].y - from.y) * (to.x - from.x);
        sym::check(y.abs() < 0.01, "on-the-line");
        sym::check((x - last - step).abs() <= 0.011 * step, "evenly-spaced");
        sym::check((k + 1 == n) | (x < len + TOL), "only-the-last-beyond");
        last = x;
    }
    sym::check(last >= len - 0.002 * step, "covers-the-line");
    sym::check(last < len + step + TOL, "not-much-more");
    sym::cover(n == 2, "two-points");
    sym::cover(n == 6, "six-points");
}

harnesses! {
    fn h_c24_along() {
        let len = sym::f64("len", 0.05, 10.0);
        let step = sym::f64("step", 0.2, 4.0);
        sym::assume(len < 5.0 * step);
        let x = sym::f64("x", -50.0, 50.0);
        evenly(p(x, 3.0), p(x + len, 3.0), len, step);
    }

    fn h_c24_down() {
        let len = sym::f64("len", 0.05, 10.0);
        let step = sym::f64("step", 0.2, 4.0);
        sym::assume(len < 5.0 * step);
        evenly(p(7.0, 20.0), p(7.0, 20.0 - len), len, step);
    }

    // A line is halved until its pieces are short enough, and no further.
    fn h_c24_halved() {
        let len = sym::f64("len", 0.1, 40.0);
        let most = sym::f64("most", 0.5, 20.0);
        sym::assume(len < 7.9 * most);
        // nor at the boundary
        sym::assume(((len - 2.0 * most).abs() > 0.01) & ((len - 4.0 * most).abs() > 0.01));
        let s = cut(&LineSegment2d::from_ends(p(0.0, 5.0), p(len, 5.0)), most);
        let n = s.len();
        sym::check((n == 3) | (n == 5) | (n == 9), "halved");
        for k in 1..n {
            sym::check(close(s[k].1.x - s[k - 1].1.x, len / (n - 1) as f64), "equal-pieces");
        }
        sym::check((n == 3) | (2.0 * len > (n - 1) as f64 * most - TOL), "no-finer-than-needed");
        sym::cover(n == 9, "nine");
    }

    fn h_c24_quadratic() {
        let y = sym::f64("y", -8.0, 8.0);
        let n = cut(&QuadraticBezier2d::new(&[p(0.0, 0.0), p(5.0, y), p(10.0, 0.0)]), 3.0).len();
        sym::cover(n == 5, "five");
        sym::cover(n > 5, "more");
    }

    fn h_c24_cubic() {
        let y = sym::f64("y", 0.0, 8.0);
        let n = cut(&CubicBezier2d::new(&[p(0.0, 0.0), p(4.0, y), p(8.0, -y), p(12.0, 2.0)]), 4.0).len();
        sym::cover(n == 5, "five");
    }

    fn h_c24_most() {
        let most = sym::f64("most", 1.2, 20.0);
        let c = [p(0.0, 0.0), p(10.0, 0.0), p(10.0, 10.0)];
        let n = cut(&QuadraticBezier2d::new(&c), most).len();
        sym::cover(n == 3, "three");
        sym::cover(n > 9, "more-than-nine");
    }
}
