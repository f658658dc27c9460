//! C18: projections onto curves and intersections.

use crate::sym;
use crate::util::*;
use traffic_sim::math::*;
use traffic_sim::{LinkAttributes, Simulation};

/// The directions a segment may have.
const DIRS: [[f64; 2]; 4] = [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.0, -1.0]];

fn p(x: f64, y: f64) -> Point2d {
    Point2d::new(x, y)
}

/// The point `along` in a direction from `origin` and `aside` to its left.
fn place(origin: [f64; 2], d: [f64; 2], along: f64, aside: f64) -> Point2d {
    p(origin[0] + d[0] * along - d[1] * aside, origin[1] + d[1] * along + d[0] * aside)
}

fn segment(origin: [f64; 2], d: [f64; 2], length: f64) -> LineSegment2d {
    LineSegment2d::from_ends(p(origin[0], origin[1]), place(origin, d, length, 0.0))
}

fn project(curve: &LineSegment2d, point: Point2d, guess: Option<f64>, along: f64) {
    let t = project_point_onto_curve(curve, point, 0.1, guess);
    sym::check(t.is_some(), "projected");
    let t = t.unwrap_or(0.0);
    sym::note("t", t);
    sym::check((t - along).abs() < 0.1 + TOL, "closest");
}

/// Two directions at right angles, and whether the second one is to the left (1) or right (-1).
fn square() -> ([f64; 2], [f64; 2], f64) {
    let i = sym::choice("dir", 0, 3);
    let turn = sym::choice("turn", 0, 1);
    (DIRS[i], DIRS[(i + 1 + 2 * turn) % 4], 1.0 - 2.0 * turn as f64)
}

harnesses! {
    // A point around a segment, from any guess.
    fn h_c18_guess() {
        let d = DIRS[sym::choice("dir", 0, 3)];
        let curve = segment([3.0, -7.0], d, 40.0);
        let (along, aside) = (sym::f64("along", -10.0, 50.0), sym::f64("aside", -20.0, 20.0));
        let guess = sym::f64("guess", 0.0, 40.0);
        project(&curve, place([3.0, -7.0], d, along, aside), Some(guess), along);
    }

    // The same without a guess.
    fn h_c18_no_guess() {
        let d = DIRS[sym::choice("dir", 0, 3)];
        let curve = segment([3.0, -7.0], d, 40.0);
        let (along, aside) = (sym::f64("along", -10.0, 50.0), sym::f64("aside", -20.0, 20.0));
        project(&curve, place([3.0, -7.0], d, along, aside), None, along);
    }

    // A slanted segment.
    fn h_c18_slanted() {
        let d = [[0.6, 0.8], [-0.8, 0.6], [0.28, -0.96]][sym::choice("dir", 0, 2)];
        let curve = segment([3.0, -7.0], d, 40.0);
        let (along, aside) = (sym::f64("along", -10.0, 50.0), sym::f64("aside", -20.0, 20.0));
        let guess = sym::f64("guess", 0.0, 40.0);
        project(&curve, place([3.0, -7.0], d, along, aside), Some(guess), along);
    }

    // A point beside a straight link.
    fn h_c18_link() {
        let d = DIRS[sym::choice("dir", 0, 3)];
        let mut s = Simulation::new();
        let link = line(&mut s, [3.0, -7.0], [3.0 + 8.0 * d[0], -7.0 + 8.0 * d[1]], 16.0);
        let (pos, offset) = (sym::f64("pos", 0.0, 8.0), sym::f64("offset", -10.0, 10.0));
        let slope = sym::f64("slope", -2.0, 2.0);
        let curve = s.get_link(link).curve();
        let point = curve.sample(pos, offset).pos;
        let back = curve.inverse_sample(point, Vector2d::new(d[0] - d[1] * slope, d[1] + d[0] * slope));
        sym::check(back.is_some(), "found");
        let (pos2, offset2, slope2) = back.unwrap_or((0.0, 0.0, 0.0));
        sym::note("pos", pos2);
        sym::note("offset", offset2);
        sym::note("slope", slope2);
        sym::check((pos - pos2).abs() < 0.001 + TOL, "position");
        sym::check(close(offset, offset2), "offset");
        sym::check(close(slope, slope2), "slope");
    }

    // Two segments crossing at right angles.
    fn h_c18_crossing() {
        let (d1, d2, left) = square();
        let (along, there) = (sym::f64("along", 0.02, 39.98), sym::f64("there", 0.02, 19.98));
        let start = place([3.0, -7.0], d1, along, -there * left);
        let (c1, c2) = (segment([3.0, -7.0], d1, 40.0), segment([start.x, start.y], d2, 20.0));
        let hit = intersect_curves(&c1, &c2);
        sym::check(hit.is_some(), "crossing");
        let (t1, t2) = hit.unwrap_or((0.0, 0.0));
        sym::note("t1", t1);
        sym::note("t2", t2);
        sym::check(((t1 - along).abs() < 0.011) & ((t2 - there).abs() < 0.011), "where");
    }

    // Two segments of which one ends before the other one or starts behind it.
    fn h_c18_apart() {
        let (d1, d2, left) = square();
        // by how much, and the length of the first one
        let (miss, length) = [(0.1, 0.5), (0.5, 2.5), (2.0, 10.0), (4.0, 10.0), (15.0, 10.0)][sym::choice("miss", 0, 4)];
        let there = if sym::choice("early", 0, 1) == 1 { 20.0 + miss } else { -miss };
        let along = sym::f64("along", -0.5, 1.5) * length;
        let start = place([3.0, -7.0], d1, along, -there * left);
        let (c1, c2) = (segment([3.0, -7.0], d1, length), segment([start.x, start.y], d2, 20.0));
        let hit = intersect_curves(&c1, &c2);
        sym::note("along", along);
        sym::check(hit.is_none(), "apart");
    }

    // The second segment crosses in front of or behind the first one.
    fn h_c18_beyond() {
        let (d1, d2, left) = square();
        let past = sym::f64("past", 0.02, 10.0);
        let along = if sym::choice("front", 0, 1) == 1 { 10.0 + past } else { -past };
        let there = 4.0 * sym::choice("there", 0, 5) as f64;
        let start = place([3.0, -7.0], d1, along, -there * left);
        let (c1, c2) = (segment([3.0, -7.0], d1, 10.0), segment([start.x, start.y], d2, 20.0));
        let hit = intersect_curves(&c1, &c2);
        sym::note("along", along);
        sym::check(hit.is_none(), "apart");
    }

    // Two segments side by side, in the same or in opposite directions.
    fn h_c18_parallel() {
        let i = sym::choice("dir", 0, 3);
        let (d1, d2) = (DIRS[i], DIRS[(i + 2 * sym::choice("turn", 0, 1)) % 4]);
        let along = sym::f64("along", -30.0, 30.0);
        let aside = [-8.0, -4.0, 4.0, 8.0][sym::choice("aside", 0, 3)];
        let start = place([3.0, -7.0], d1, along, aside);
        let (c1, c2) = (segment([3.0, -7.0], d1, 10.0), segment([start.x, start.y], d2, 20.0));
        let hit = intersect_curves(&c1, &c2);
        sym::note("along", along);
        sym::check(hit.is_none(), "apart");
    }

    // A point beside a bend.
    fn h_c18_bend() {
        let mut s = Simulation::new();
        let turn = QuadraticBezier2d::new(&[p(0.0, 0.0), p(10.0, 0.0), p(10.0, 10.0)]);
        let u_turn = CubicBezier2d::new(&[p(0.0, 0.0), p(50.0, 0.0), p(50.0, 30.0), p(0.0, 30.0)]);
        let curve: &dyn ParametricCurve2d = if sym::choice("shape", 0, 1) == 0 { &turn } else { &u_turn };
        let link = s.add_link(&LinkAttributes { curve, speed_limit: 16.0 });
        let curve = s.get_link(link).curve();
        let pos = curve.length() * (1 + sym::choice("place", 0, 14)) as f64 / 16.0;
        let offset = 2.0 * sym::choice("offset", 0, 4) as f64 - 4.0;
        let sample = curve.sample(pos, offset);
        // any direction relative to the link
        let slope = sym::f64("slope", -2.0, 2.0);
        let tan = sample.tan;
        let back = curve.inverse_sample(sample.pos, tan + slope * Vector2d::new(-tan.y, tan.x));
        sym::check(back.is_some(), "found");
        let (pos2, offset2, slope2) = back.unwrap_or((0.0, 0.0, 0.0));
        sym::note("pos", pos2);
        sym::note("offset", offset2);
        sym::note("slope", slope2);
        sym::check((pos - pos2).abs() < 0.01, "position");
        sym::check((offset - offset2).abs() < 0.01, "offset");
        // on the inside of the bend the way along the link is longer than it looks
        let (t1, t2) = (curve.sample_centre(pos - 0.5).tan, curve.sample_centre(pos + 0.5).tan);
        let bend = t1.x * t2.y - t1.y * t2.x;
        let stretch = 1.0 - bend * offset;
        sym::check((slope2 - slope * stretch).abs() < 0.1, "slope");
    }
}
