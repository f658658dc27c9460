//! C13: lane changes.

use crate::sym;
use crate::util::*;
use traffic_sim::math::{Point2d, QuadraticBezier2d};
use traffic_sim::{LinkAttributes, LinkId, Simulation, VehicleId};

/// The distance between the lanes.
const GAP: f64 = 3.5;

/// The old and the new lane along the x axis, the new one at y = 0 and the old
/// one at the returned offset, starting `back` metres behind it.
fn lanes(s: &mut Simulation, left: bool, back: f64) -> (LinkId, LinkId, f64) {
    let side = if left { -GAP } else { GAP };
    let l1 = line(s, [-back, side], [200.0, side], 16.0);
    let l2 = line(s, [0.0, 0.0], [200.0, 0.0], 16.0);
    let ids = if left { [l2, l1] } else { [l1, l2] };
    s.add_link_group(&ids, 0);
    (l1, l2, side)
}

fn place(s: &Simulation, v: VehicleId) -> (f64, f64) {
    let p = s.get_vehicle(v).position();
    sym::note("x", p.x);
    sym::note("y", p.y);
    (p.x, p.y)
}

/// Where a vehicle is that came from `side` to change lanes within `distance`,
/// having `moved` since.
fn drift(side: f64, distance: f64, moved: f64, y: f64) {
    let off = y * side / GAP;
    sym::check((off > -TOL) & (off < GAP + TOL), "between-the-lanes");
    sym::check((moved < distance) | close(y, 0.0), "reaches-the-new-lane");
    sym::check((moved > 0.9 * distance) | (off > 0.02 * GAP), "not-too-early");
    sym::check((moved > 0.1 * distance) | (off > 0.9 * GAP), "leaves-gradually");
    sym::check((moved < 0.5 * distance) | (off < 0.55 * GAP), "not-too-late");
}

/// A vehicle that has just begun to change lanes of its own accord, 25 m before
/// the end of the new lane, which goes straight on. Also that lane, the next
/// link and the side the vehicle came from.
fn crossing() -> (Simulation, VehicleId, [LinkId; 2], f64) {
    let mut s = Simulation::new();
    let side = if sym::choice("left", 0, 1) == 1 { -GAP } else { GAP };
    let l1 = line(&mut s, [0.0, side], [50.0, side], 16.0);
    let l2 = line(&mut s, [0.0, 0.0], [50.0, 0.0], 16.0);
    let l3 = line(&mut s, [50.0, 0.0], [200.0, 0.0], 16.0);
    s.add_link_connection(l2, l3);
    s.add_link_group(&[l1, l2], 0b10);
    let v = car_to(&mut s, &CAR, l1, l3);
    s.step(0.3);
    s.verif_set_motion(v, 25.0, 10.0);
    s.step(0.0);
    sym::check(s.get_vehicle(v).link_id() == Some(l2), "changes-lanes");
    sym::check(s.get_vehicle(v).pos_mid() == 25.0, "abreast");
    (s, v, [l2, l3], side)
}

harnesses! {
    // Starting a lane change anywhere.
    fn h_c13_start() {
        let mut s = Simulation::new();
        let back = 5.0 * sym::choice("back", 0, 1) as f64;
        let (l1, l2, side) = lanes(&mut s, sym::choice("left", 0, 1) == 1, back);
        let v = s.add_vehicle(&CAR, l1);
        warm_up(&mut s);
        let pos = sym::f64("pos", 8.0, 120.0);
        let vel = sym::f64("vel", 0.0, 20.0);
        s.verif_set_motion(v, pos, vel);
        let distance = 15.0 * sym::choice("distance", 1, 3) as f64;
        s.do_lane_change(v, l2, distance);
        let veh = s.get_vehicle(v);
        sym::check(veh.link_id() == Some(l2), "on-the-new-link");
        sym::check(veh.vel() == vel, "same-speed");
        sym::check(close(veh.pos_mid(), pos - back), "abreast");
        s.step(0.0);
        let (x, y) = place(&s, v);
        sym::check(close(x, pos - back) & close(y, side), "does-not-jump");
        sym::check(s.get_vehicle(v).vel() == vel, "same-speed");
    }

    // Over any distance, from one place.
    fn h_c13_distance() {
        let mut s = Simulation::new();
        let (l1, l2, side) = lanes(&mut s, sym::choice("left", 0, 1) == 1, 0.0);
        let v = s.add_vehicle(&CAR, l1);
        warm_up(&mut s);
        s.verif_set_motion(v, 20.0, 10.0);
        let distance = sym::f64("distance", 5.0, 60.0);
        s.do_lane_change(v, l2, distance);
        s.step(0.05);
        let moved = sym::f64("moved", 0.0, 70.0);
        s.verif_set_motion(v, 20.0 + moved, 10.0);
        s.step(0.0);
        let (x, y) = place(&s, v);
        sym::check(close(x, 20.0 + moved), "moves-along");
        drift(side, distance, moved, y);
        sym::cover(moved > distance, "over");
        sym::cover(moved < distance, "under-way");
    }

    // One step during the change.
    fn h_c13_drift() {
        let mut s = Simulation::new();
        let (l1, l2, side) = lanes(&mut s, sym::choice("left", 0, 1) == 1, 0.0);
        let v = s.add_vehicle(&CAR, l1);
        warm_up(&mut s);
        s.verif_set_motion(v, 20.0, 10.0);
        let distance = 15.0 * sym::choice("distance", 1, 3) as f64;
        s.do_lane_change(v, l2, distance);
        s.step(0.05);
        let pos = sym::f64("pos", 20.0, 80.0);
        sym::assume(pos < 20.0 + distance);
        s.verif_set_motion(v, pos, sym::f64("vel", 0.0, 20.0));
        let (x0, y0) = place(&s, v);
        s.step(sym::f64("dt", 0.0, 0.04));
        let (x, y) = place(&s, v);
        sym::check(s.get_vehicle(v).link_id() == Some(l2), "on-the-new-link");
        sym::check(close(x, s.get_vehicle(v).pos_mid()), "moves-along");
        sym::check(y * side <= y0 * side + TOL, "drifts-to-the-new-lane");
        sym::check((y0 - y).abs() <= 2.0 * GAP / distance * (x - x0) + TOL, "drifts-gradually");
        drift(side, distance, x - 20.0, y);
        sym::cover(x > 20.0 + distance, "over");
        sym::cover(x < 20.0 + distance, "under-way");
    }

    // Over the end of the new lane.
    fn h_c13_cross() {
        let (mut s, v, [_, l3], side) = crossing();
        s.verif_set_motion(v, sym::f64("pos", 40.0, 50.0), sym::f64("vel", 0.0, 20.0));
        s.step(sym::f64("dt", 0.0, 0.5));
        let (x, y) = place(&s, v);
        let crossed = s.get_vehicle(v).link_id() == Some(l3);
        let pos = s.get_vehicle(v).pos_mid() + if crossed { 50.0 } else { 0.0 };
        sym::check(close(x, pos), "moves-along");
        drift(side, 30.0, x - 25.0, y);
        sym::cover(crossed, "crosses");
    }

    // Having changed onto the next link meanwhile.
    fn h_c13_crossed() {
        let (mut s, v, [_, l3], side) = crossing();
        s.verif_set_motion(v, 49.0, 10.0);
        s.step(0.2);
        s.step(0.05);
        sym::check(s.get_vehicle(v).link_id() == Some(l3), "crosses");
        s.verif_set_motion(v, sym::f64("pos", 0.0, 4.999), sym::f64("vel", 0.0, 20.0));
        s.step(sym::f64("dt", 0.0, 0.5));
        let (x, y) = place(&s, v);
        sym::check(close(x, s.get_vehicle(v).pos_mid() + 50.0), "moves-along");
        drift(side, 30.0, x - 25.0, y);
        sym::cover(x > 56.0, "over");
    }

    // Changing back half way.
    fn h_c13_back() {
        let mut s = Simulation::new();
        let (l1, l2, side) = lanes(&mut s, sym::choice("left", 0, 1) == 1, 0.0);
        let v = s.add_vehicle(&CAR, l1);
        warm_up(&mut s);
        s.verif_set_motion(v, 20.0, 10.0);
        s.do_lane_change(v, l2, 30.0);
        for _ in 0..sym::choice("steps", 1, 20) {
            s.step(0.15);
        }
        let (x0, y0) = place(&s, v);
        let dir = s.get_vehicle(v).direction();
        s.do_lane_change(v, l1, 30.0);
        sym::check(s.get_vehicle(v).link_id() == Some(l1), "on-the-new-link");
        let from = s.get_vehicle(v).pos_mid();
        sym::check((from - x0).abs() < 0.002, "abreast");
        s.step(0.05);
        let moved = sym::f64("moved", 0.0, 40.0);
        s.verif_set_motion(v, from + moved, 10.0);
        s.step(0.0);
        let (x, y) = place(&s, v);
        sym::check(close(x, s.get_vehicle(v).pos_mid()), "moves-along");
        // from the offset and in the direction it had
        let ahead = y0 + moved * dir.y / dir.x;
        sym::check((y - ahead).abs() < 0.002 + 0.04 * moved * moved, "does-not-jump");
        sym::check((x < from + 30.0) | close(y, side), "reaches-the-new-lane");
        sym::check((y - side) * side <= TOL, "stays-between");
    }

    // From one bend to another beside it, at a few places.
    fn h_c13_bend() {
        let out = sym::choice("outwards", 0, 1) == 1;
        let mut s = Simulation::new();
        let mut bend = |r: f64| {
            let c = [Point2d::new(0.0, -r), Point2d::new(r, -r), Point2d::new(r, 0.0)];
            s.add_link(&LinkAttributes { curve: &QuadraticBezier2d::new(&c), speed_limit: 16.0 })
        };
        let (a, b) = (bend(40.0), bend(44.0));
        s.add_link_group(&[a, b], 0);
        let (l1, l2) = if out { (b, a) } else { (a, b) };
        let v = s.add_vehicle(&CAR, l1);
        warm_up(&mut s);
        s.verif_set_motion(v, 8.0 * sym::choice("where", 0, 6) as f64, 5.0);
        s.step(0.1);
        let (x0, y0) = place(&s, v);
        let dir = s.get_vehicle(v).direction();
        s.do_lane_change(v, l2, 20.0);
        sym::check(s.get_vehicle(v).link_id() == Some(l2), "on-the-new-link");
        let from = s.get_vehicle(v).pos_mid();
        let moved = 0.1 * sym::choice("moved", 0, 5) as f64;
        s.verif_set_motion(v, from + moved, 5.0);
        let (x, y) = place(&s, v);
        let (dx, dy) = (x - x0 - dir.x * moved, y - y0 - dir.y * moved);
        let slack = 0.01 + 0.15 * moved;
        sym::check((dx.abs() < slack) & (dy.abs() < slack), "does-not-jump");
    }
}
