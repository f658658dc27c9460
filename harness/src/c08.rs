//! C08: closed and open links.

use crate::sym;
use crate::util::*;
use traffic_sim::{LinkId, Simulation, TrafficControl, TrafficLight, VehicleAttributes, VehicleId};

fn driver() -> VehicleAttributes {
    VehicleAttributes {
        max_acc: sym::f64("max_acc", 1.0, 3.0),
        comf_dec: sym::f64("comf_dec", 1.0, 3.0),
        headway: sym::f64("headway", 1.0, 4.0),
        length: sym::f64("length", 2.0, 20.0),
        ..CAR
    }
}

fn setup(car: &VehicleAttributes) -> (Simulation, [LinkId; 2], VehicleId) {
    let mut s = Simulation::new();
    let l = chain(&mut s, 200.0, 350.0, [16.0, 16.0]);
    let a = car_to(&mut s, car, l[0], l[1]);
    warm_up(&mut s);
    (s, l, a)
}

/// Whether the vehicle can stop half a metre before the line with about 5 m/s^2.
fn able(d: f64, v: f64) -> bool {
    v * (v + 1.0) <= 10.0 * (d - 0.5)
}

/// One step from speed `va` at distance `d` to `v` at `e`: with little room it
/// brakes with at least 5 m/s^2.
fn obeys(d: f64, va: f64, e: f64, v: f64, dt: f64) -> bool {
    let room = 10.0 * (d - 0.5) - va * (va + 1.0);
    let brakes = v <= max(va - 5.0 * dt, 0.0) + 1e-6;
    ((room > 3.2 * va + 1.6) | brakes) & (v <= va + 3.0 * dt + 1e-6) & ((e - d + 0.5 * (va + v) * dt).abs() < 1e-6)
}

/// From any state in which it is able to stop, one step leads to such a state.
fn stops(mut s: Simulation, l1: LinkId, a: VehicleId, line: f64) {
    let (d, va) = (sym::f64("d", 0.5, 150.0), sym::f64("va", 0.0, 20.0));
    sym::assume(able(d, va));
    let len = s.get_vehicle(a).length();
    s.verif_set_motion(a, line - 0.5 * len - d, va);
    let dt = sym::f64("dt", 0.0, 0.2);
    s.step(dt);
    sym::check(s.get_vehicle(a).link_id() == Some(l1), "stays-on-its-link");
    let (_, v) = motion(&s, a);
    let e = line - s.get_vehicle(a).pos_front();
    sym::check(obeys(d, va, e, v, dt), "brakes-in-time");
    sym::check(e > 0.4, "stays-before-the-line");
    // whatever obeys that is able to stop again, up to rounding
    let (e1, v1) = (sym::f64("e1", -10.0, 160.0), sym::f64("v1", 0.0, 30.0));
    sym::assume(obeys(d, va, e1, v1, dt));
    sym::check(able(e1 + 1e-5, v1), "able-to-stop-again");
    sym::cover(e < 1.0, "close-to-the-line");
    sym::cover(v > 15.0, "fast");
}

/// Speed after a step on a free road.
fn free(car: &VehicleAttributes, va: f64, dt: f64) -> f64 {
    let x = va / 16.0;
    max(va + dt * max(car.max_acc * (1.0 - x * x * x * x), -MAX_DEC), 0.0)
}

harnesses! {
    fn h_c08_closed() {
        let car = driver();
        let (mut s, [l1, l2], a) = setup(&car);
        s.set_link_control(l2, TrafficControl::Closed);
        stops(s, l1, a, 200.0);
    }

    // Closed by a traffic light.
    fn h_c08_red() {
        let car = driver();
        let mut s = Simulation::new();
        let [l1, l2] = chain(&mut s, 200.0, 350.0, [16.0, 16.0]);
        let a = car_to(&mut s, &car, l1, l2);
        let mut light = TrafficLight::new();
        light.add_movement(0, 3.0, 1.0, [l2].into_iter());
        s.add_traffic_light(light);
        warm_up(&mut s);
        stops(s, l1, a, 200.0);
    }

    // Where the road ends without being the destination.
    fn h_c08_dead_end() {
        let car = driver();
        let mut s = Simulation::new();
        let l1 = line(&mut s, [0.0, 0.0], [200.0, 0.0], 16.0);
        let a = s.add_vehicle(&car, l1);
        warm_up(&mut s);
        stops(s, l1, a, 200.0);
    }

    // An open link, equally fast, does not matter at all.
    fn h_c08_open() {
        let car = driver();
        let (mut s, [_, l2], a) = setup(&car);
        if sym::bool("reopened") {
            s.set_link_control(l2, TrafficControl::Closed);
            s.step(0.3);
            s.set_link_control(l2, TrafficControl::Open);
        }
        let va = sym::f64("va", 0.0, 30.0);
        s.verif_set_motion(a, sym::f64("pa", 0.0, 199.0), va);
        let dt = sym::f64("dt", 0.0, 1.0);
        s.step(dt);
        sym::note("vel", s.get_vehicle(a).vel());
        sym::check(close(s.get_vehicle(a).vel(), free(&car, va, dt)), "passes-freely");
        sym::cover(s.get_vehicle(a).link_id() == Some(l2), "crosses");
    }

    // Too close to stop while it was open: goes through although closed since.
    fn h_c08_committed() {
        let car = driver();
        let (mut s, [_, l2], a) = setup(&car);
        let (d, va) = (sym::f64("d", 0.5, 60.0), sym::f64("va", 0.5, 20.0));
        sym::assume(d < va * va / (2.0 * car.comf_dec));
        s.verif_set_motion(a, 200.0 - 0.5 * car.length - d, va);
        s.step(0.0);
        s.set_link_control(l2, TrafficControl::Closed);
        warm_up(&mut s);
        sym::note("pos", s.get_vehicle(a).pos_mid());
        let v2 = sym::f64("v2", 0.0, 16.0);
        let dt = sym::f64("dt", 0.0, 1.0);
        if s.get_vehicle(a).link_id() != Some(l2) {
            s.verif_set_motion(a, sym::f64("p2", 180.0, 199.0), v2);
            s.step(dt);
            sym::note("vel", s.get_vehicle(a).vel());
            sym::check(close(s.get_vehicle(a).vel(), free(&car, v2, dt)), "goes-through");
        }
    }

    // Far enough to stop comfortably: an open link that closes is respected.
    fn h_c08_not_committed() {
        let car = driver();
        let (mut s, [l1, l2], a) = setup(&car);
        let (d, va) = (sym::f64("d", 10.5, 100.0), sym::f64("va", 0.0, 20.0));
        sym::assume(d > va * va / (2.0 * car.comf_dec) + 8.0);
        s.verif_set_motion(a, 200.0 - 0.5 * car.length - d, va);
        s.step(0.0);
        s.set_link_control(l2, TrafficControl::Closed);
        s.verif_set_motion(a, 150.0, 5.0);
        s.step(0.3);
        stops(s, l1, a, 200.0);
    }

    // Committed to a link beyond a very short one.
    fn h_c08_short() {
        let mut s = Simulation::new();
        let l1 = line(&mut s, [0.0, 0.0], [200.0, 0.0], 16.0);
        let l2 = line(&mut s, [200.0, 0.0], [204.0, 0.0], 16.0);
        let l3 = line(&mut s, [204.0, 0.0], [300.0, 0.0], 16.0);
        s.add_link_connection(l1, l2);
        s.add_link_connection(l2, l3);
        let a = car_to(&mut s, &CAR, l1, l3);
        warm_up(&mut s);
        for _ in 0..3 {
            s.verif_set_motion(a, 195.0, sym::f64("v0", 8.0, 16.0));
            s.step(0.15);
        }
        s.set_link_control(l3, TrafficControl::Closed);
        s.verif_set_motion(a, 199.0, 6.0);
        s.step(0.3);
        sym::check(s.get_vehicle(a).link_id() == Some(l2), "on-the-short-link");
        let (p, v) = (sym::f64("p", 0.0, 3.9), sym::f64("v", 0.0, 16.0));
        s.verif_set_motion(a, p, v);
        let dt = sym::f64("dt", 0.0, 0.5);
        s.step(dt);
        sym::note("vel", s.get_vehicle(a).vel());
        sym::check(close(s.get_vehicle(a).vel(), free(&CAR, v, dt)), "goes-through");
        sym::cover(s.get_vehicle(a).link_id() == Some(l3), "crosses");
    }

    // Several open links, short and long.
    fn h_c08_open_far() {
        let mut s = Simulation::new();
        let long = [90.0, 200.0, 260.0][sym::choice("long", 0, 2)];
        let short = [4.0, 30.0, 210.0][sym::choice("short", 0, 2)];
        let l1 = line(&mut s, [0.0, 0.0], [long, 0.0], 16.0);
        let l2 = line(&mut s, [long, 0.0], [long + short, 0.0], 16.0);
        let l3 = line(&mut s, [long + short, 0.0], [long + short + 50.0, 0.0], 16.0);
        let l4 = line(&mut s, [long + short + 50.0, 0.0], [long + short + 80.0, 0.0], 16.0);
        s.add_link_connection(l1, l2);
        s.add_link_connection(l2, l3);
        s.add_link_connection(l3, l4);
        let a = car_to(&mut s, &CAR, l1, l4);
        warm_up(&mut s);
        // let onto the next links
        for _ in 0..sym::choice("entered", 0, 3) {
            s.verif_set_motion(a, long - 5.0, 15.0);
            s.step(0.15);
        }
        let (d, v) = (sym::f64("d", 0.1, 80.0), sym::f64("v", 0.0, 16.0));
        s.verif_set_motion(a, long - d, v);
        let dt = sym::f64("dt", 0.0, 0.2);
        s.step(dt);
        sym::note("vel", s.get_vehicle(a).vel());
        sym::check(close(s.get_vehicle(a).vel(), free(&CAR, v, dt)), "passes-freely");
    }
}
