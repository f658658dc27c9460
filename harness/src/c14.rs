//! C14: sampling of links.

use crate::sym;
use crate::util::*;
use traffic_sim::math::{CubicBezier2d, LineSegment2d, ParametricCurve2d, Point2d, QuadraticBezier2d, Vector2d};
use traffic_sim::{LinkAttributes, LinkId, Simulation};

fn p(x: f64, y: f64) -> Point2d {
    Point2d::new(x, y)
}

fn add(s: &mut Simulation, curve: &dyn ParametricCurve2d) -> LinkId {
    s.add_link(&LinkAttributes { curve, speed_limit: 16.0 })
}

fn dot(a: Vector2d, b: Vector2d) -> f64 {
    a.x * b.x + a.y * b.y
}

/// Straight links of whole and fractional length, turns and an S shape, with
/// their true lengths.
fn shape(s: &mut Simulation, kind: usize) -> (LinkId, Point2d, Point2d, f64) {
    let straight = |s: &mut Simulation, a: Point2d, b: Point2d| {
        let d = b - a;
        (add(s, &LineSegment2d::from_ends(a, b)), a, b, dot(d, d).sqrt())
    };
    match kind {
        0 => straight(s, p(0.0, 0.0), p(12.0, 0.0)),
        1 => straight(s, p(3.0, -2.0), p(3.0, 9.25)),
        2 => straight(s, p(10.0, 10.0), p(4.0, 18.0)),
        3 => straight(s, p(5.0, 0.0), p(4.7, 0.4)),
        4 => {
            let c = [p(0.0, 0.0), p(10.0, 0.0), p(10.0, 10.0)];
            (add(s, &QuadraticBezier2d::new(&c)), c[0], c[2], 16.232252401402305)
        }
        5 => {
            let c = [p(-40.0, 0.0), p(-40.0, 30.0), p(0.0, 40.0)];
            (add(s, &QuadraticBezier2d::new(&c)), c[0], c[2], 61.619557)
        }
        6 => {
            let c = [p(0.0, 0.0), p(0.0, 6.0), p(6.0, 6.0), p(6.0, 0.0)];
            (add(s, &CubicBezier2d::new(&c)), c[0], c[3], 12.0)
        }
        _ => {
            let c = [p(0.0, 0.0), p(8.0, 0.0), p(8.0, 6.0), p(16.0, 6.0)];
            (add(s, &CubicBezier2d::new(&c)), c[0], c[3], 17.474191)
        }
    }
}

fn geometry(kind: usize) {
    let mut s = Simulation::new();
    let (l, from, to, len) = shape(&mut s, kind);
    let curve = s.get_link(l).curve();
    let whole = curve.length();
    sym::note("length", whole);
    sym::check((whole - len).abs() <= 0.005 * len + 1e-6, "length");
    let slack = if kind < 4 { TOL } else { 0.05 };
    let near = |a: Point2d, b: Point2d| {
        let d = a - b;
        dot(d, d) < slack * slack
    };
    sym::check(near(curve.sample_centre(0.0).pos, from), "starts-at-the-start");
    sym::check(near(curve.sample_centre(whole).pos, to), "ends-at-the-end");

    let segments = whole.ceil() as u64;
    let k = sym::choice("segment", 0, segments - 1) as f64;
    let q = k + sym::f64("t", 0.000001, 0.999999);
    let a = curve.sample_centre(q);
    sym::note("x", a.pos.x);
    sym::note("y", a.pos.y);
    sym::check((dot(a.tan, a.tan) - 1.0).abs() < 0.01, "unit-tangent");

    // a metre per metre, in the direction of the tangent
    let v = curve.sample_dt(q);
    let speed = dot(v, v);
    sym::check((speed > 0.9) & (speed < 1.1), "metre-per-metre");
    sym::check((v.x * a.tan.y - v.y * a.tan.x).abs() < 0.01, "tangent-along-the-road");
    sym::check(dot(v, a.tan) > 0.5, "tangent-forwards");
    // which is how positions change within the segment
    let (b, w) = (curve.sample_centre(k), curve.sample_dt(k));
    let (d, e) = (a.pos - b.pos, (v + w) * (0.5 * (q - k)));
    sym::check(close(d.x, e.x) & close(d.y, e.y), "moves-with-the-speed");

    // lateral offsets at right angles
    let off = sym::f64("offset", -10.0, 10.0);
    let o = curve.sample(q, off);
    let side = o.pos - a.pos;
    sym::check(close(side.x, -off * a.tan.y) & close(side.y, off * a.tan.x), "offset-at-right-angles");
    sym::check(close(o.tan.x, a.tan.x) & close(o.tan.y, a.tan.y), "same-tangent");

    // no jumps from one segment to the next
    if k + 1.0 < segments as f64 {
        let (b, u) = (curve.sample_centre(k + 1.0), curve.sample_dt(k + 1.0));
        let d = b.pos - a.pos;
        let far = 1.05 * (k + 1.0 - q) + 0.01;
        sym::check(dot(d, d) <= far * far, "no-jumps");
        sym::check(dot(u, v) > 0.85, "no-kinks");
    }

    // where it should be
    match kind {
        0..=3 => {
            let d = (to - from) * (q / len);
            sym::check(close(a.pos.x, from.x + d.x) & close(a.pos.y, from.y + d.y), "on-the-line");
        }
        4 => {
            let m = a.pos.x + a.pos.y;
            sym::check((q > whole) | ((a.pos.y - m * m / 40.0).abs() < 0.05), "on-the-curve");
        }
        7 => {
            sym::check((a.tan.x > 0.0) & (a.tan.y > -0.05), "on-the-curve");
        }
        _ => {}
    }
}

harnesses! {
    fn h_c14_line() { geometry(0) }
    fn h_c14_vertical() { geometry(1) }
    fn h_c14_slanted() { geometry(2) }
    fn h_c14_short() { geometry(3) }
    fn h_c14_turn() { geometry(4) }
    fn h_c14_bend() { geometry(5) }
    fn h_c14_u_turn() { geometry(6) }
    fn h_c14_s_curve() { geometry(7) }

    // Straight links go on beyond their ends.
    fn h_c14_beyond() {
        let mut s = Simulation::new();
        let (l, from, to, len) = shape(&mut s, sym::choice("shape", 0, 3) as usize);
        let q = if sym::choice("which", 0, 1) == 1 {
            len + sym::f64("ahead", 0.000001, 20.0)
        } else {
            -sym::f64("behind", 0.000001, 20.0)
        };
        let a = s.get_link(l).curve().sample_centre(q);
        let d = (to - from) * (q / len);
        sym::note("x", a.pos.x);
        sym::check(close(a.pos.x, from.x + d.x) & close(a.pos.y, from.y + d.y), "on-the-line");
        sym::check(close(a.tan.x, (to.x - from.x) / len) & close(a.tan.y, (to.y - from.y) / len), "same-direction");
    }

    // Any number at all, not-a-number included.
    fn h_c14_anywhere() {
        let mut s = Simulation::new();
        let l = add(&mut s, &LineSegment2d::from_ends(p(0.0, 0.0), p(5.0, 0.0)));
        let q = f64::from_bits(sym::int("bits", 0, u64::MAX));
        let curve = s.get_link(l).curve();
        let a = curve.sample_centre(q);
        let b = curve.sample(q, 1.0);
        sym::note("x", a.pos.x);
        sym::check(!(q == 2.5) | ((a.pos.x == 2.5) & (b.pos.x == 2.5)), "samples-the-middle");
        sym::cover(q.is_nan(), "not-a-number");
        sym::cover(q < -1e300, "far-behind");
        sym::cover(q > 1e300, "far-ahead");
    }
}
