//! C03: no rear-end collisions.

use crate::sym;
use crate::util::*;
use traffic_sim::{Simulation, VehicleAttributes, VehicleId};

fn driver(max_acc: f64, comf_dec: f64, headway: f64) -> VehicleAttributes {
    VehicleAttributes { max_acc, comf_dec, headway, length: sym::f64("length", 2.0, 20.0), ..CAR }
}

/// How much a follower has in hand to stop with 5.5 m/s^2 half a metre behind a
/// leader that brakes with 6 m/s^2; a state is safe when this is not negative.
fn room(gap: f64, va: f64, vb: f64) -> f64 {
    11.0 * (gap - 0.5 + vb * vb / 12.0) - va * (va + 1.2)
}

/// With little room a follower brakes with at least 5.5 m/s^2.
fn brakes(room: f64, va: f64, v: f64, dt: f64) -> bool {
    (room > 2.2 * va) | (v <= max(va - 5.5 * dt, 0.0) + 1e-6)
}

/// With not much more room it does not accelerate, and never with more than
/// 3 m/s^2.
fn holds_back(room: f64, va: f64, v: f64, dt: f64) -> bool {
    ((room > 3.4 * va + 1.74) | (v <= va + 1e-6)) & (v <= va + 3.0 * dt + 1e-6)
}

/// The vehicle ahead brakes with at most 6 m/s^2.
fn leads(vb: f64, v: f64, dt: f64) -> bool {
    v >= max(vb - MAX_DEC * dt, 0.0) - 1e-6
}

/// What one step from any safe state does.
fn follow(s: &mut Simulation, a: VehicleId, b: VehicleId, pb: f64, shift: f64) {
    let (va, vb) = (sym::f64("va", 0.0, 20.0), sym::f64("vb", 0.0, 20.0));
    let gap = sym::f64("gap", 0.5, 70.0);
    let room = room(gap, va, vb);
    sym::assume(room >= 0.0);
    let (la, lb) = (s.get_vehicle(a).length(), s.get_vehicle(b).length());
    let pa = pb + shift - 0.5 * lb - gap - 0.5 * la;
    sym::assume((shift == 0.0) | (pa < shift - 5.0));
    s.verif_set_motion(a, pa, va);
    s.verif_set_motion(b, pb, vb);
    if sym::bool("emergency") {
        s.set_vehicle_frozen(b, true);
    }
    let dt = sym::f64("dt", 0.0, 0.2);
    s.step(dt);
    let ((p, v), (q, u)) = (motion(s, a), motion(s, b));
    sym::check(brakes(room, va, v, dt), "brakes-in-time");
    sym::check(holds_back(room, va, v, dt), "holds-back");
    sym::check(leads(vb, u, dt), "leader-braking-bounded");
    let (moved_a, moved_b) = (0.5 * (va + v) * dt, 0.5 * (vb + u) * dt);
    sym::check(((p - pa - moved_a).abs() < 1e-6) & ((q - pb - moved_b).abs() < 1e-6), "moved-by-mean-speed");
    sym::cover(gap < 1.0, "close");
    sym::cover(va > vb + 10.0, "closing-in");
}

fn same_link(car: &VehicleAttributes) {
    let mut s = Simulation::new();
    let l = line(&mut s, [0.0, 0.0], [400.0, 0.0], 16.0);
    let a = s.add_vehicle(car, l);
    let b = s.add_vehicle(&CAR, l);
    warm_up(&mut s);
    follow(&mut s, a, b, 150.0, 0.0);
    sym::check(s.get_link(l).verif_vehicles() == [a, b], "order-kept");
}

harnesses! {
    // Whatever does what `follow` checks is safe again: arithmetic alone.
    fn h_c03_induction() {
        let (va, vb) = (sym::f64("va", 0.0, 20.0), sym::f64("vb", 0.0, 20.0));
        let (v, u) = (sym::f64("v", 0.0, 30.0), sym::f64("u", 0.0, 30.0));
        let (gap, dt) = (sym::f64("gap", 0.5, 70.0), sym::f64("dt", 0.0, 0.2));
        let (moved_a, moved_b) = (0.5 * (va + v) * dt, 0.5 * (vb + u) * dt);
        sym::assume(leads(vb, u, dt));
        let leader = 11.0 * (moved_b + (u * u - vb * vb) / 12.0);
        sym::check(leader > -1e-4, "leader-takes-no-room");
        let had = sym::f64("room", 0.0, 2000.0);
        sym::assume(brakes(had, va, v, dt) & holds_back(had, va, v, dt));
        let follower = va * (va + 1.2) - v * (v + 1.2) - 11.0 * moved_a;
        sym::check(had + follower > -1e-4, "follower-leaves-room");
        sym::assume((had - room(gap, va, vb)).abs() < 1e-9);
        let next = gap + moved_b - moved_a;
        sym::check((room(next, v, u) - had - follower - leader).abs() < 1e-6, "room-adds-up");
        sym::check(next > 0.4999, "gap-kept");
        sym::cover((had < 1.0) & (va > vb + 5.0) & (dt > 0.1), "near");
        sym::note("gap", next);
    }

    fn h_c03_car() {
        same_link(&driver(2.0, 2.0, 1.5));
    }

    fn h_c03_truck() {
        same_link(&driver(1.0, 1.5, 2.0));
    }

    fn h_c03_brisk() {
        same_link(&driver(2.5, 2.0, 1.5));
    }

    fn h_c03_cautious() {
        same_link(&driver(1.5, 1.0, 3.0));
    }

    fn h_c03_next_link() {
        let mut s = Simulation::new();
        let l = line(&mut s, [0.0, 0.0], [100.0, 0.0], 16.0);
        let m = line(&mut s, [100.0, 0.0], [400.0, 0.0], 16.0);
        s.add_link_connection(l, m);
        let a = s.add_vehicle(&CAR, l);
        let b = s.add_vehicle(&CAR, m);
        s.set_vehicle_destination(a, m);
        warm_up(&mut s);
        s.verif_set_motion(a, 90.0, 10.0);
        s.step(0.3);
        follow(&mut s, a, b, 0.5, 100.0);
    }
}
