//! C16: cubic functions, Bézier curves and vectors.

use crate::sym;
use crate::util::*;
use traffic_sim::math::*;

fn coord(n: &str) -> f64 {
    sym::f64(n, -100.0, 100.0)
}

fn point(x: &str, y: &str) -> Point2d {
    Point2d::new(coord(x), coord(y))
}

fn same(a: Point2d, b: Point2d) -> bool {
    sym::note("x", a.x);
    sym::note("y", a.y);
    close(a.x, b.x) & close(a.y, b.y)
}

fn lerp(a: Point2d, b: Point2d, t: f64) -> Point2d {
    Point2d::new(a.x + t * (b.x - a.x), a.y + t * (b.y - a.y))
}

fn quad_points() -> [Point2d; 3] {
    [point("x0", "y0"), point("x1", "y1"), point("x2", "y2")]
}

fn cubic_points() -> [Point2d; 4] {
    [point("x0", "y0"), point("x1", "y1"), point("x2", "y2"), point("x3", "y3")]
}

/// De Casteljau's construction.
fn casteljau(p: &[Point2d; 4], t: f64) -> Point2d {
    let [a, b, c] = [lerp(p[0], p[1], t), lerp(p[1], p[2], t), lerp(p[2], p[3], t)];
    lerp(lerp(a, b, t), lerp(b, c, t), t)
}

/// A curve of the user's own, without derivatives: (x0 + a t, y0 + b t + c t^2).
struct Parabola([f64; 5]);

impl ParametricCurve2d for Parabola {
    fn sample(&self, t: f64) -> Point2d {
        let [x, y, a, b, c] = self.0;
        Point2d::new(x + a * t, y + b * t + c * t * t)
    }

    fn bounds(&self) -> traffic_sim::Interval<f64> {
        traffic_sim::Interval::new(0.0, 2.0)
    }
}

fn fit(w: f64) {
    let (x1, y1, y2) = (coord("x1"), coord("y1"), coord("y2"));
    let (d1, d2) = (sym::f64("d1", -10.0, 10.0), sym::f64("d2", -10.0, 10.0));
    let x2 = x1 + w;
    let f = CubicFn::fit(x1, y1, d1, x2, y2, d2);
    sym::note("y1", f.y(x1));
    sym::note("y2", f.y(x2));
    sym::check(close(f.y(x1), y1), "first-value");
    sym::check(close(f.dy(x1), d1), "first-slope");
    sym::check(close(f.y(x2), y2), "second-value");
    sym::check(close(f.dy(x2), d2), "second-slope");
}

harnesses! {
    fn h_c16_fit() { fit(sym::f64("w", 1.0, 100.0)) }
    fn h_c16_fit_backwards() { fit(sym::f64("w", -100.0, -1.0)) }

    // The fitted cubic in between: a straight line stays one, an S-curve is
    // symmetric, and value and slope belong together.
    fn h_c16_cubic() {
        let w = sym::f64("w", 1.0, 100.0);
        let (x1, y1, y2) = (coord("x1"), coord("y1"), coord("y2"));
        let f = CubicFn::fit(x1, y1, 0.0, x1 + w, y2, 0.0);
        let t = sym::f64("t", 0.0, 1.0);
        sym::note("y", f.y(x1 + t * w));
        sym::check(close(f.y(x1 + 0.5 * w), 0.5 * (y1 + y2)), "half-way");
        sym::check(close(f.y(x1 + t * w), y1 + (y2 - y1) * t * t * (3.0 - 2.0 * t)), "smooth-step");
        let (y, dy) = f.y_and_dy(x1 + t * w);
        sym::check(close(y, f.y(x1 + t * w)) & close(dy, f.dy(x1 + t * w)), "value-and-slope-together");
    }

    fn h_c16_derivative() {
        let (d1, d2) = (sym::f64("d1", -10.0, 10.0), sym::f64("d2", -10.0, 10.0));
        let x1 = coord("x1");
        let f = CubicFn::fit(x1, coord("y1"), d1, x1 + 8.0, coord("y2"), d2);
        let (x, h) = (x1 + sym::f64("x", -4.0, 12.0), sym::f64("h", 0.0, 4.0));
        // Simpson's rule is exact for the derivative of a cubic
        let rise = h / 6.0 * (f.dy(x) + 4.0 * f.dy(x + 0.5 * h) + f.dy(x + h));
        sym::note("rise", rise);
        sym::check(close(f.y(x + h) - f.y(x), rise), "slope-is-the-derivative");
        let a = sym::f64("a", -50.0, 50.0);
        sym::check(close(f.translate_x(a).y(x - a), f.y(x)), "translation");
        sym::check(close(f.translate_x(a).dy(x - a), f.dy(x)), "translation-slope");
        let c = CubicFn::constant(a);
        sym::check(close(c.y(x), a) & close(c.dy(x), 0.0), "constant");
    }

    fn h_c16_quadratic() {
        let p = quad_points();
        let q = QuadraticBezier2d::new(&p);
        let t = sym::f64("t", -1.0, 2.0);
        let h = sym::f64("h", -1.0, 1.0);
        sym::check(same(q.sample(0.0), p[0]) & same(q.sample(1.0), p[2]), "ends");
        sym::check(same(q.sample(t), lerp(lerp(p[0], p[1], t), lerp(p[1], p[2], t), t)), "construction");
        let d = q.sample_dt(t + 0.5 * h) * h;
        sym::check(same(q.sample(t + h), q.sample(t) + d), "first-derivative");
        let (a, b) = (q.sample_dt(t), q.sample_dt(t + h));
        let dd = q.sample_dt2(t) * h;
        sym::check(close(b.x - a.x, dd.x) & close(b.y - a.y, dd.y), "second-derivative");
        sym::check(close(q.bounds().min, 0.0) & close(q.bounds().max, 1.0), "bounds");
        let c = CubicBezier2d::quadratic(&p);
        sym::check(same(c.sample(t), q.sample(t)), "raised-to-a-cubic");
    }

    fn h_c16_cubic_bezier() {
        let p = cubic_points();
        let c = CubicBezier2d::new(&p);
        let t = sym::f64("t", -1.0, 2.0);
        sym::check(same(c.sample(0.0), p[0]) & same(c.sample(1.0), p[3]), "ends");
        sym::check(same(c.sample(t), casteljau(&p, t)), "construction");
        sym::check(close(c.bounds().min, 0.0) & close(c.bounds().max, 1.0), "bounds");
        let mut r = c;
        r.reverse();
        sym::check(same(r.sample(t), c.sample(1.0 - t)), "reversed");
    }

    fn h_c16_cubic_derivative() {
        let c = CubicBezier2d::new(&cubic_points());
        let t = sym::f64("t", -1.0, 2.0);
        let h = sym::f64("h", -1.0, 1.0);
        let d = (c.sample_dt(t) + c.sample_dt(t + 0.5 * h) * 4.0 + c.sample_dt(t + h)) * (h / 6.0);
        sym::check(same(c.sample(t + h), c.sample(t) + d), "first-derivative");
    }

    fn h_c16_subdivide() {
        let c = CubicBezier2d::new(&cubic_points());
        let (t, u) = (sym::f64("t", 0.0, 1.0), sym::f64("u", 0.0, 1.0));
        let [a, b] = c.subdivide(t);
        sym::check(same(a.sample(u), c.sample(t * u)), "first-part");
        sym::check(same(b.sample(u), c.sample(t + (1.0 - t) * u)), "second-part");
    }

    fn h_c16_line() {
        let (a, b) = (point("x0", "y0"), point("x1", "y1"));
        let t = sym::f64("t", -1.0, 2.0);
        sym::check(same(CubicBezier2d::line(a, b).sample(t), lerp(a, b, t)), "cubic-line");
    }

    // A line segment is parameterised by distance from its start.
    fn h_c16_segment() {
        let (a, dx, dy) = (point("x0", "y0"), coord("dx"), coord("dy"));
        sym::assume(dx * dx + dy * dy > 0.01);
        let l = LineSegment2d::from_ends(a, Point2d::new(a.x + dx, a.y + dy));
        let len = l.bounds().max;
        sym::note("length", len);
        sym::check(close(l.bounds().min, 0.0) & close(len * len / 20000.0, (dx * dx + dy * dy) / 20000.0), "length");
        sym::check(same(l.sample(0.0), a) & same(l.start(), a), "starts-at-the-first-point");
        sym::check(same(l.end(), Point2d::new(a.x + dx, a.y + dy)), "ends-at-the-second-point");
        sym::check(same(l.sample(len), l.end()), "sampled-end");
        let d = l.sample_dt(0.0);
        sym::check(close(d.x * d.x + d.y * d.y, 1.0), "unit-speed");
        sym::check(close(0.01 * (d.x * dy - d.y * dx), 0.0) & close(0.01 * (d.x * dx + d.y * dy), 0.01 * len), "along-the-line");
        let t = sym::f64("t", -200.0, 200.0);
        sym::check(same(l.sample(t), l.sample(0.0) + l.sample_dt(t) * t), "straight");
    }

    fn h_c16_point_segment() {
        let a = point("x0", "y0");
        let l = LineSegment2d::from_ends(a, a);
        sym::check(same(l.sample(sym::f64("t", 0.0, 1.0)), a) & same(l.end(), a), "a-point-stays-a-point");
        sym::check(close(l.bounds().max, 0.0), "no-length");
    }

    fn h_c16_vectors() {
        let (p, o) = (point("x0", "y0"), point("x1", "y1"));
        // any rotated frame
        let (c, s) = (sym::f64("c", -1.0, 1.0), sym::f64("s", -1.0, 1.0));
        sym::assume((c * c + s * s > 0.999999) & (c * c + s * s < 1.000001));
        let y = Vector2d::new(c, s);
        let x = rot90(y);
        sym::check(close(x.x, -s) & close(x.y, c), "quarter-turn");
        let l = project_local(p, o, x, y);
        sym::check(same(o + x * l.x + y * l.y, o + (p - o) * (c * c + s * s)), "local-coordinates");
    }

    // Derivatives of curves that do not provide their own are approximated.
    fn h_c16_approximate() {
        let [x, y] = [coord("x0"), coord("y0")];
        let [a, b, c] = ["a", "b", "c"].map(|n| sym::f64(n, -10.0, 10.0));
        let t = sym::f64("t", 0.0, 2.0);
        let curve = Parabola([x, y, a, b, c]);
        let (d, e) = (curve.sample_dt(t), curve.sample_dt2(t));
        sym::note("dy", d.y);
        sym::check((d.x - a).abs() < 0.01, "derivative-x");
        sym::check((d.y - (b + 2.0 * c * t)).abs() < 0.01, "derivative-y");
        sym::check((e.x.abs() < 0.01) & ((e.y - 2.0 * c).abs() < 0.01), "second-derivative");
        // the same through a reference
        let (d, e) = ((&&curve).sample_dt(t), (&&curve).sample_dt2(t));
        sym::check((d.x - a).abs() < 0.01, "derivative-x");
        sym::check((d.y - (b + 2.0 * c * t)).abs() < 0.01, "derivative-y");
        sym::check((e.x.abs() < 0.01) & ((e.y - 2.0 * c).abs() < 0.01), "second-derivative");
        let (p, q) = ((&&curve).sample(t), (&&curve).bounds());
        sym::check(same(p, curve.sample(t)) & (q.min == 0.0) & (q.max == 2.0), "same-curve");
    }

    fn h_c16_normalize() {
        let v = Vector2d::new(sym::f64("vx", -10.0, 10.0), sym::f64("vy", -10.0, 10.0));
        let dv = Vector2d::new(sym::f64("dx", -10.0, 10.0), sym::f64("dy", -10.0, 10.0));
        let m2 = v.x * v.x + v.y * v.y;
        sym::assume(m2 > 0.01);
        let (n, dn) = normalize_with_derivative(v, dv);
        sym::note("nx", n.x);
        sym::check(close(n.x * n.x + n.y * n.y, 1.0), "unit");
        sym::check(close(n.x * v.y - n.y * v.x, 0.0) & (n.x * v.x + n.y * v.y > TOL), "same-direction");
        sym::check(close(n.x * dn.x + n.y * dn.y, 0.0), "derivative-tangential");
        // turning rate of v: (v x dv) / |v|^2
        sym::check(close((n.x * dn.y - n.y * dn.x) * m2, v.x * dv.y - v.y * dv.x), "derivative-turning-rate");
    }
}
