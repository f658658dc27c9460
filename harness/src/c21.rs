//! C21: vehicles in neighbouring lanes.

use crate::sym;
use crate::util::*;
use traffic_sim::{LinkId, Simulation, VehicleAttributes};

/// The sideways room a vehicle needs, in m.
const ROOM: f64 = 0.5;

const LIMIT: f64 = 16.0;

/// Lanes along the x axis at the given offsets (left to right) and starts.
fn lanes<const N: usize>(s: &mut Simulation, at: [(f64, f64); N]) -> [LinkId; N] {
    let ids = at.map(|(y, x)| line(s, [x, y], [x + 300.0, y], LIMIT));
    s.add_link_group(&ids, 0);
    ids
}

fn wide(name: &str) -> VehicleAttributes {
    VehicleAttributes { width: sym::f64(name, 0.5, 5.0), ..CAR }
}

/// The claims about a vehicle going `v0` with another one ahead that leaves `room`
/// between the vehicles sideways, and `gap` lengthwise.
fn followed(v0: f64, v: f64, dt: f64, room: f64, gap: f64, ahead: f64) {
    sym::note("vel", v);
    let alone = free(&CAR, v0, LIMIT);
    let behind = min(alone, idm(&CAR, gap, v0, ahead));
    sym::check((room < ROOM + 0.01) | close(v, next_speed(v0, alone, dt)), "ignored-if-clear");
    sym::check((room > ROOM - 0.01) | ((gap - 2.0).abs() < 0.01) | close(v, next_speed(v0, behind, dt)), "followed-if-in-the-way");
}

harnesses! {
    fn h_c21_two() {
        let mut s = Simulation::new();
        let apart = [1.0, 3.5, 4.5][sym::choice("apart", 0, 2) as usize];
        let ids = lanes(&mut s, [(apart, 0.0), (0.0, 0.0)]);
        let side = sym::choice("side", 0, 1) as usize;
        let (mine, theirs) = (wide("my_width"), wide("their_width"));
        let a = car_to(&mut s, &mine, ids[side], ids[side]);
        let b = car_to(&mut s, &theirs, ids[1 - side], ids[1 - side]);
        warm_up(&mut s);
        let (va, vb) = (sym::f64("va", 0.0, 16.0), sym::f64("vb", 0.0, 16.0));
        let (pa, pb) = (sym::f64("pa", 0.0, 100.0), sym::f64("pb", 10.0, 150.0));
        s.verif_set_motion(a, pa, va);
        s.verif_set_motion(b, pb, vb);
        sym::assume((pb > pa + 5.0) & (pb < pa + 75.0));
        s.step(0.1);
        let room = apart - 0.5 * (mine.width + theirs.width);
        followed(va, s.get_vehicle(a).vel(), 0.1, room, pb - pa - 5.0, vb);
        sym::check(close(s.get_vehicle(b).vel(), next_speed(vb, free(&CAR, vb, LIMIT), 0.1)), "nothing-ahead");
        sym::cover(room > ROOM, "clear");
        sym::cover(room < ROOM, "in-the-way");
    }

    // Any two of three lanes, which start at different places.
    fn h_c21_three() {
        let mut s = Simulation::new();
        let at = [(7.0, 0.0), (3.5, -10.0), (0.0, 10.0)];
        let ids = lanes(&mut s, at);
        let i = sym::choice("my_lane", 0, 2) as usize;
        let j = (i + sym::choice("other_lane", 1, 2) as usize) % 3;
        let apart = (at[i].0 - at[j].0).abs();
        let theirs = VehicleAttributes { width: sym::f64("their_width", 0.5, 12.0), ..CAR };
        let a = car_to(&mut s, &CAR, ids[i], ids[i]);
        let b = car_to(&mut s, &theirs, ids[j], ids[j]);
        warm_up(&mut s);
        let (va, vb) = (sym::f64("va", 0.0, 16.0), 5.0);
        let (xa, xb) = (sym::f64("xa", 12.0, 100.0), sym::f64("xb", 15.0, 150.0));
        s.verif_set_motion(a, xa - at[i].1, va);
        s.verif_set_motion(b, xb - at[j].1, vb);
        sym::assume(xb > xa + 8.0);
        s.step(0.1);
        let room = apart - 0.5 * (CAR.width + theirs.width);
        followed(va, s.get_vehicle(a).vel(), 0.1, room, xb - xa - 5.0, vb);
        sym::cover(room > ROOM, "clear");
        sym::cover(room < ROOM, "in-the-way");
    }

    // Vehicles behind or alongside do not matter.
    fn h_c21_behind() {
        let mut s = Simulation::new();
        let ids = lanes(&mut s, [(3.5, 0.0), (0.0, 0.0)]);
        let side = sym::choice("side", 0, 1) as usize;
        let theirs = wide("their_width");
        let a = car_to(&mut s, &CAR, ids[side], ids[side]);
        let b = car_to(&mut s, &theirs, ids[1 - side], ids[1 - side]);
        warm_up(&mut s);
        let (va, vb) = (sym::f64("va", 0.0, 16.0), sym::f64("vb", 0.0, 16.0));
        let (pa, pb) = (sym::f64("pa", 0.0, 100.0), sym::f64("pb", 0.0, 100.0));
        s.verif_set_motion(a, pa, va);
        s.verif_set_motion(b, pb, vb);
        sym::assume(pb - 2.5 < pa - 0.01);
        s.step(0.1);
        let v = s.get_vehicle(a).vel();
        sym::note("vel", v);
        sym::check(close(v, next_speed(va, free(&CAR, va, LIMIT), 0.1)), "not-followed");
    }

    // From the link before the lanes.
    fn h_c21_before() {
        let mut s = Simulation::new();
        let ids = lanes(&mut s, [(3.5, 0.0), (0.0, 0.0)]);
        let side = sym::choice("side", 0, 1) as usize;
        let y = [3.5, 0.0][side];
        let l = line(&mut s, [-60.0, y], [0.0, y], LIMIT);
        s.add_link_connection(l, ids[side]);
        let theirs = wide("their_width");
        let a = car_to(&mut s, &CAR, l, ids[side]);
        let b = car_to(&mut s, &theirs, ids[1 - side], ids[1 - side]);
        warm_up(&mut s);
        // close enough to have committed itself to the lane
        s.verif_set_motion(a, 50.0, 10.0);
        s.verif_set_motion(b, 100.0, 10.0);
        s.step(0.15);
        sym::check(s.get_vehicle(a).link_id() == Some(l), "not-there-yet");
        let (va, vb) = (sym::f64("va", 0.0, 16.0), sym::f64("vb", 0.0, 16.0));
        let (pa, pb) = (sym::f64("pa", 40.0, 57.0), sym::f64("pb", 0.0, 60.0));
        s.verif_set_motion(a, pa, va);
        s.verif_set_motion(b, pb, vb);
        s.step(0.1);
        let room = 3.5 - 0.5 * (CAR.width + theirs.width);
        followed(va, s.get_vehicle(a).vel(), 0.1, room, 60.0 - pa + pb - 5.0, vb);
        sym::cover(room > ROOM, "clear");
        sym::cover(room < ROOM, "in-the-way");
    }

    // The vehicle ahead is leaving the lane.
    fn h_c21_leaving() {
        let mut s = Simulation::new();
        let ids = lanes(&mut s, [(3.5, 0.0), (0.0, 0.0)]);
        let side = sym::choice("side", 0, 1) as usize;
        let mine = wide("my_width");
        let a = car_to(&mut s, &mine, ids[side], ids[side]);
        let b = car_to(&mut s, &CAR, ids[side], ids[side]);
        s.verif_set_motion(b, 100.0, 10.0);
        s.do_lane_change(b, ids[1 - side], 30.0);
        warm_up(&mut s);
        s.verif_set_motion(b, 100.0 + 5.0 * sym::choice("moved", 0, 6) as f64, 10.0);
        let va = sym::f64("va", 0.0, 16.0);
        let pa = sym::f64("pa", 30.0, 90.0);
        s.verif_set_motion(a, pa, va);
        let veh = s.get_vehicle(b);
        let (x, rear) = (veh.position().x, veh.rear_coords());
        let y = [3.5, 0.0][side];
        let near = min((rear[0].y - y).abs(), (rear[1].y - y).abs());
        let covered = (rear[0].y - y) * (rear[1].y - y) <= 0.0;
        let room = if covered { -1.0 } else { near - 0.5 * mine.width };
        s.step(0.1);
        followed(va, s.get_vehicle(a).vel(), 0.1, room, x - pa - 5.0, 10.0);
        sym::cover(room > ROOM, "clear");
        sym::cover(room < ROOM, "in-the-way");
    }

    // Leaving the lane behind another vehicle.
    fn h_c21_overtaking() {
        let mut s = Simulation::new();
        let ids = lanes(&mut s, [(3.5, 0.0), (0.0, 0.0)]);
        let side = sym::choice("side", 0, 1) as usize;
        let (from, to) = (ids[side], ids[1 - side]);
        let a = car_to(&mut s, &CAR, from, to);
        let b = car_to(&mut s, &CAR, from, from);
        s.verif_set_motion(a, 20.0, 10.0);
        s.do_lane_change(a, to, 30.0);
        warm_up(&mut s);
        let (va, vb) = (sym::f64("va", 0.0, 16.0), sym::f64("vb", 0.0, 16.0));
        let pb = sym::f64("pb", 27.0, 90.0);
        s.verif_set_motion(a, 20.0, va);
        s.verif_set_motion(b, pb, vb);
        s.step(0.1);
        // alongside, the vehicle is 3.5 m from the other one once across the
        // lanes, and has got less than the needed 2.5 m between them until
        // two thirds of the way
        let room = if pb - 5.0 > 49.0 { 1.5 } else if pb - 5.0 < 37.0 { -1.0 } else { ROOM };
        followed(va, s.get_vehicle(a).vel(), 0.1, room, pb - 25.0, vb);
        sym::cover(pb > 60.0, "far-ahead");
        sym::cover(pb < 40.0, "near");
    }

    // Several wide vehicles in one lane, several cars in the other one.
    fn h_c21_several() {
        let mut s = Simulation::new();
        let ids = lanes(&mut s, [(3.5, 0.0), (0.0, 0.0)]);
        let side = sym::choice("side", 0, 1) as usize;
        let (own, other) = (ids[side], ids[1 - side]);
        let wide = VehicleAttributes { width: 4.6, ..CAR };
        let cars = [own; 3].map(|l| car_to(&mut s, &CAR, l, l));
        let obstacles = [other; 2].map(|l| car_to(&mut s, &wide, l, l));
        warm_up(&mut s);
        let pos = [sym::f64("pa", 20.0, 50.0), sym::f64("pb", 70.0, 105.0), 150.0];
        let vel = [sym::f64("va", 0.0, 16.0), sym::f64("vb", 0.0, 16.0), 8.0];
        let (obstacle_pos, obstacle_vel) = ([60.0, 115.0], 4.0 * sym::choice("obstacle_vel", 0, 3) as f64);
        for i in 0..3 {
            s.verif_set_motion(cars[i], pos[i], vel[i]);
        }
        for i in 0..2 {
            s.verif_set_motion(obstacles[i], obstacle_pos[i], obstacle_vel);
        }
        s.step(0.1);
        for i in 0..2 {
            let v = s.get_vehicle(cars[i]).vel();
            sym::note("vel", v);
            let same_lane = idm(&CAR, pos[i + 1] - pos[i] - 5.0, vel[i], vel[i + 1]);
            let next_lane = idm(&CAR, obstacle_pos[i] - pos[i] - 5.0, vel[i], obstacle_vel);
            let acc = min(free(&CAR, vel[i], LIMIT), min(same_lane, next_lane));
            sym::check(close(v, next_speed(vel[i], acc, 0.1)), "followed-if-in-the-way");
        }
        let v = s.get_vehicle(cars[2]).vel();
        sym::check(close(v, next_speed(8.0, free(&CAR, 8.0, LIMIT), 0.1)), "nothing-ahead");
    }
}
