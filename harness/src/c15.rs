//! C15: world position, direction and rear line.

use crate::sym;
use crate::util::*;
use traffic_sim::math::{LineSegment2d, Point2d, QuadraticBezier2d, Vector2d};
use traffic_sim::{LinkAttributes, LinkId, Simulation, Vehicle, VehicleAttributes};

fn dot(a: Vector2d, b: Vector2d) -> f64 {
    a.x * b.x + a.y * b.y
}

/// A straight road: where it starts, and its direction.
const ROADS: [([f64; 2], [f64; 2]); 4] = [
    ([0.0, 0.0], [1.0, 0.0]),
    ([20.0, -30.0], [0.0, 1.0]),
    ([100.0, 50.0], [-1.0, 0.0]),
    ([10.0, 10.0], [0.6, -0.8]),
];

fn road(s: &mut Simulation, from: [f64; 2], dir: [f64; 2], at: [f64; 2]) -> LinkId {
    let point = |d: f64| [from[0] + dir[0] * d, from[1] + dir[1] * d];
    line(s, point(at[0]), point(at[1]), 16.0)
}

/// A car of any size.
fn sized() -> VehicleAttributes {
    VehicleAttributes {
        width: sym::f64("width", 0.5, 4.0),
        length: sym::f64("length", 1.0, 20.0),
        wheel_base: sym::f64("wheel_base", 0.1, 5.0),
        ..CAR
    }
}

/// The claims about a vehicle keeping to the centre line of a straight road,
/// `along` metres after its start.
fn straight(v: &Vehicle, car: &VehicleAttributes, from: [f64; 2], dir: [f64; 2], along: f64) {
    let at = v.position();
    let (dx, dy) = (at.x - from[0], at.y - from[1]);
    sym::note("x", at.x);
    sym::note("y", at.y);
    sym::check(close(dx, dir[0] * along) & close(dy, dir[1] * along), "on-the-road");
    let d = v.direction();
    sym::check(close(d.x, dir[0]) & close(d.y, dir[1]), "points-along-the-road");
    rear(v, car, dir, 0.0);
}

/// The rear line of a vehicle whose offset from the centre line is `off`.
fn rear(v: &Vehicle, car: &VehicleAttributes, dir: [f64; 2], off: f64) {
    let (t, n) = (Vector2d::new(dir[0], dir[1]), Vector2d::new(-dir[1], dir[0]));
    let at = v.position();
    let [a, b] = v.rear_coords().map(|p| p - at);
    sym::check(close(dot(a, t), -0.5 * car.length), "half-a-length-behind");
    sym::check(close(dot(b, t), -0.5 * car.length), "half-a-length-behind");
    // sideways from the centre of the vehicle, its tail and the centre line
    let tail = -0.5 * car.length * dot(v.direction(), n);
    let (a, b) = (dot(a, n), dot(b, n));
    let half = 0.5 * car.width - TOL;
    sym::check((a <= tail - half + EPS) & (b >= tail + half - EPS), "covers-the-tail");
    sym::check((a <= -off - half + EPS) & (b >= -off + half - EPS), "covers-the-lane");
    sym::check(b - a <= car.width + (tail + off).abs() + TOL, "not-wider-than-needed");
}

/// A car followed over two steps of any length.
fn drive(k: usize) {
    let (from, dir) = ROADS[k];
    let mut s = Simulation::new();
    let l = road(&mut s, from, dir, [0.0, 200.0]);
    let car = sized();
    let v = car_to(&mut s, &car, l, l);
    warm_up(&mut s);
    s.step(0.05);
    s.verif_set_motion(v, sym::f64("pos", 0.0, 120.0), sym::f64("vel", 0.0, 40.0));
    straight(s.get_vehicle(v), &car, from, dir, s.get_vehicle(v).pos_mid());
    for _ in 0..2 {
        s.step(sym::f64("dt", 0.0, 0.04));
        straight(s.get_vehicle(v), &car, from, dir, s.get_vehicle(v).pos_mid());
    }
}

harnesses! {
    fn h_c15_east() { drive(0) }
    fn h_c15_north() { drive(1) }
    fn h_c15_west() { drive(2) }

    // On a slanted road a few motions of cars of any size.
    fn h_c15_slanted() {
        let (from, dir) = ROADS[3];
        let mut s = Simulation::new();
        let l = road(&mut s, from, dir, [0.0, 60.0]);
        let car = VehicleAttributes { width: sym::f64("width", 0.5, 4.0), length: sym::f64("length", 1.0, 20.0), ..CAR };
        let v = car_to(&mut s, &car, l, l);
        warm_up(&mut s);
        s.step(0.05);
        s.verif_set_motion(v, 10.5 + sym::choice("where", 0, 3) as f64, 5.0 * sym::choice("speed", 0, 3) as f64);
        s.step(0.05 * sym::choice("dt", 0, 4) as f64);
        straight(s.get_vehicle(v), &car, from, dir, s.get_vehicle(v).pos_mid());
    }

    // Over the end of a link onto the next.
    fn h_c15_cross() {
        let (from, dir) = ROADS[sym::choice("road", 0, 2) as usize];
        let mut s = Simulation::new();
        let l1 = road(&mut s, from, dir, [0.0, 50.0]);
        let l2 = road(&mut s, from, dir, [50.0, 200.0]);
        s.add_link_connection(l1, l2);
        let car = sized();
        let v = car_to(&mut s, &car, l1, l2);
        warm_up(&mut s);
        s.step(0.05);
        s.verif_set_motion(v, sym::f64("pos", 40.0, 50.0), sym::f64("vel", 0.0, 40.0));
        s.step(sym::f64("dt", 0.0, 1.0));
        let crossed = s.get_vehicle(v).link_id() == Some(l2);
        let along = s.get_vehicle(v).pos_mid() + if crossed { 50.0 } else { 0.0 };
        straight(s.get_vehicle(v), &car, from, dir, along);
        sym::cover(crossed, "crosses");
        sym::cover(!crossed, "stays");
    }

    // Round a right-angled corner between two straight links.
    fn h_c15_corner() {
        let left = sym::choice("left", 0, 1) == 1;
        let mut s = Simulation::new();
        let l1 = line(&mut s, [0.0, 0.0], [50.0, 0.0], 16.0);
        let l2 = line(&mut s, [50.0, 0.0], [50.0, if left { 80.0 } else { -80.0 }], 16.0);
        s.add_link_connection(l1, l2);
        let car = VehicleAttributes { wheel_base: sym::f64("wheel_base", 0.5, 4.0), ..CAR };
        let v = car_to(&mut s, &car, l1, l2);
        warm_up(&mut s);
        s.step(0.05);
        let vel = sym::f64("vel", 10.0, 20.0);
        s.verif_set_motion(v, 48.0, vel);
        s.step(sym::f64("dt", 0.3, 0.5));
        let veh = s.get_vehicle(v);
        sym::check(veh.link_id() == Some(l2), "crosses");
        let (at, d) = (veh.position(), veh.direction());
        sym::note("dir", d.y);
        let y = if left { veh.pos_mid() } else { -veh.pos_mid() };
        sym::check(close(at.x, 50.0) & close(at.y, y), "on-the-road");
        sym::check((dot(d, d) - 1.0).abs() < 0.01, "unit");
        // the vehicle is dragged by its front: it points from where its axle was
        let (ax, ay) = (50.0 - (48.0 - car.wheel_base), y);
        sym::check((d.x * ay - d.y * ax).abs() < 0.01, "points-from-its-axle");
        sym::check((d.x > 0.0) & ((d.y > 0.0) == left), "turns-into-the-corner");
        rear(veh, &car, [0.0, if left { 1.0 } else { -1.0 }], 0.0);
    }

    // On a bend the vehicle is on the curve, a unit vector its direction.
    fn h_c15_bend() {
        let c = [Point2d::new(0.0, 0.0), Point2d::new(10.0, 0.0), Point2d::new(10.0, 10.0)];
        let mut s = Simulation::new();
        let l = s.add_link(&LinkAttributes { curve: &QuadraticBezier2d::new(&c), speed_limit: 16.0 });
        let v = car_to(&mut s, &CAR, l, l);
        warm_up(&mut s);
        s.step(0.05);
        let k = sym::choice("metre", 1, 14) as f64;
        s.verif_set_motion(v, k + 0.5, 2.0);
        s.step(sym::f64("dt", 0.001, 0.2));
        let veh = s.get_vehicle(v);
        let p = s.get_link(l).curve().sample_centre(veh.pos_mid());
        let (at, d) = (veh.position(), veh.direction());
        sym::note("x", at.x);
        sym::check(close(at.x, p.pos.x) & close(at.y, p.pos.y), "on-the-road");
        sym::check((dot(d, d) - 1.0).abs() < 0.01, "unit");
        sym::check(dot(d, p.tan) > 0.95, "points-along-the-road");
        rear(veh, &CAR, [p.tan.x, p.tan.y], 0.0);
    }

    // Changing lanes, the vehicle is off the centre line.
    fn h_c15_lane_change() {
        let left = sym::choice("left", 0, 1) == 1;
        let side = if left { -3.5 } else { 3.5 };
        let mut s = Simulation::new();
        let l1 = line(&mut s, [0.0, side], [200.0, side], 16.0);
        let l2 = line(&mut s, [0.0, 0.0], [200.0, 0.0], 16.0);
        s.add_link_group(&[l1, l2], 0);
        let car = VehicleAttributes {
            width: sym::f64("width", 0.5, 4.0),
            length: sym::f64("length", 1.0, 20.0),
            ..CAR
        };
        let v = s.add_vehicle(&car, l1);
        warm_up(&mut s);
        s.verif_set_motion(v, 20.0, 10.0);
        s.do_lane_change(v, l2, 30.0);
        s.step(0.05);
        s.verif_set_motion(v, 25.0 + 5.0 * sym::choice("where", 0, 3) as f64, 10.0);
        s.step(sym::f64("dt", 0.01, 0.4));
        let veh = s.get_vehicle(v);
        let (at, d) = (veh.position(), veh.direction());
        sym::note("y", at.y);
        sym::check(veh.link_id() == Some(l2), "on-the-new-link");
        sym::check(close(at.x, veh.pos_mid()), "on-the-road");
        sym::check((at.y * side > 0.0) & (at.y.abs() < 3.5), "between-the-lanes");
        sym::check((dot(d, d) - 1.0).abs() < 0.01, "unit");
        sym::check((d.x > 0.9) & ((d.y > 0.0) == left), "points-to-the-new-lane");
        rear(veh, &car, [1.0, 0.0], at.y);
    }
}
