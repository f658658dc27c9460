//! C04: speed limits.

use crate::sym;
use crate::util::*;
use traffic_sim::{Simulation, VehicleAttributes};

fn limits_car() -> VehicleAttributes {
    VehicleAttributes {
        max_acc: sym::f64("max_acc", 0.5, 5.0),
        comf_dec: sym::f64("comf_dec", 0.5, 5.0),
        ..CAR
    }
}

harnesses! {
    // On a free road: the desired speed is kept and approached.
    fn h_c04_current() {
        let mut s = Simulation::new();
        let limit = sym::f64("limit", 5.0, 40.0);
        let l = line(&mut s, [0.0, 0.0], [400.0, 0.0], limit);
        let car = limits_car();
        let a = s.add_vehicle(&car, l);
        let adj = sym::f64("adjust", 0.8, 1.2);
        s.verif_set_velocity_adjust(a, adj);
        let want = adj * limit;
        warm_up(&mut s);
        let x = sym::f64("x", 0.0, 3.0);
        let va = x * want;
        s.verif_set_motion(a, 50.0, va);
        let dt = sym::f64("dt", 0.0, 0.2);
        s.step(dt);
        let (_, v) = motion(&s, a);
        sym::check((x > 1.0) | (v <= want + TOL), "limit-kept");
        sym::check((x > 1.0) | (v >= va - TOL), "slower-speeds-up");
        sym::check((x < 1.0) | (v <= va + TOL), "faster-slows-down");
        sym::cover(v > va + 0.1, "speeds-up");
        sym::cover(v < va - 0.1, "slows-down");
    }

    // How fast it speeds up or slows down.
    fn h_c04_rate() {
        let mut s = Simulation::new();
        let limit = sym::f64("limit", 5.0, 40.0);
        let l = line(&mut s, [0.0, 0.0], [400.0, 0.0], limit);
        let car = limits_car();
        let a = s.add_vehicle(&car, l);
        let adj = sym::f64("adjust", 0.8, 1.2);
        s.verif_set_velocity_adjust(a, adj);
        warm_up(&mut s);
        let x = sym::f64("x", 0.0, 3.0);
        let va = x * (adj * limit);
        s.verif_set_motion(a, 50.0, va);
        let dt = sym::f64("dt", 0.0, 1.0);
        s.step(dt);
        let (_, v) = motion(&s, a);
        let acc = max(car.max_acc * (1.0 - x * x * x * x), -MAX_DEC);
        sym::check(close(v, max(va + acc * dt, 0.0)), "free-road-acceleration");
    }

    // The vehicle behind is limited too.
    fn h_c04_follower() {
        let mut s = Simulation::new();
        let l = line(&mut s, [0.0, 0.0], [600.0, 0.0], 10.0);
        let a = s.add_vehicle(&CAR, l);
        let b = s.add_vehicle(&CAR, l);
        warm_up(&mut s);
        let (va, vb) = (sym::f64("va", 0.0, 30.0), sym::f64("vb", 0.0, 30.0));
        s.verif_set_motion(a, 50.0, va);
        s.verif_set_motion(b, sym::f64("pb", 60.0, 500.0), vb);
        let dt = sym::f64("dt", 0.0, 0.2);
        s.step(dt);
        for (id, v0) in [(a, va), (b, vb)] {
            let (_, v) = motion(&s, id);
            sym::check((v0 > 10.0) | (v <= 10.0 + TOL), "limit-kept");
            sym::check((v0 < 10.0) | (v <= v0 + TOL), "faster-slows-down");
            sym::check((v0 < 11.0) | (v <= max(v0 - 0.9 * dt, 10.0) + TOL), "faster-slows-down-quickly");
        }
    }

    // A slower link ahead that the vehicle is about to enter.
    fn h_c04_upcoming() {
        let mut s = Simulation::new();
        let l2_limit = sym::f64("next_limit", 4.0, 20.0);
        let [l1, l2] = chain(&mut s, 200.0, 320.0, [20.0, l2_limit]);
        let car = limits_car();
        let a = car_to(&mut s, &car, l1, l2);
        let adj = [0.8, 1.0, 1.2][sym::choice("adjust", 0, 2)];
        s.verif_set_velocity_adjust(a, adj);
        warm_up(&mut s);
        // let onto the next link
        s.verif_set_motion(a, 197.0, 1.0);
        s.step(0.3);
        let d = sym::f64("d", 0.01, 60.0);
        let va = sym::f64("va", 0.0, 30.0);
        s.verif_set_motion(a, 200.0 - d, va);
        let dt = sym::f64("dt", 0.0, 0.5);
        s.step(dt);
        let v = s.get_vehicle(a).vel();
        sym::note("vel", v);
        let want = adj * l2_limit;
        // constant deceleration that just meets the limit, times the distance
        let need = va * va - want * want;
        let floor = max(va - 2.0 * car.comf_dec * dt, va - MAX_DEC * dt);
        let brakes = v <= max(max(va - need / (2.0 * d) * dt, floor), 0.0) + TOL;
        sym::check((need <= 2.0 * d * car.comf_dec + TOL) | brakes, "brakes-for-the-slower-link");
        let free = va / (20.0 * adj);
        let free = max(car.max_acc * (1.0 - free * free * free * free), -MAX_DEC);
        let unaffected = close(v, max(va + free * dt, 0.0));
        sym::check((need >= 2.0 * d * car.comf_dec - TOL) | unaffected, "not-slowed-early");
        sym::check(unaffected | (v >= floor - TOL), "not-harder-than-twice-comfortable");
        sym::cover(need > 2.0 * d * car.comf_dec, "must-brake");
    }
}
