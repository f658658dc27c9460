//! C01: kinematics of a step.

use crate::sym;
use crate::util::*;
use traffic_sim::{Simulation, TrafficControl, VehicleAttributes};

/// The claims about one step of a vehicle from speed `v0` to `v1` over `dist`.
fn kinematics(car: &VehicleAttributes, v0: f64, v1: f64, dist: f64, dt: f64) {
    sym::check(v1 >= -EPS, "speed-not-negative");
    sym::check(v1 <= v0 + car.max_acc * dt + TOL, "acceleration-bounded");
    sym::check(v1 >= v0 - MAX_DEC * dt - TOL, "deceleration-bounded");
    sym::check(close(dist, 0.5 * (v0 + v1) * dt), "distance-is-mean-speed-times-dt");
    sym::cover(v1 > v0 + 0.01, "speeds-up");
    sym::cover(v1 < v0 - 0.01, "brakes");
}

harnesses! {
    fn h_c01_follow() {
        let mut s = Simulation::new();
        let l = line(&mut s, [0.0, 0.0], [400.0, 0.0], 16.0);
        let car = any_car();
        let a = s.add_vehicle(&car, l);
        let b = s.add_vehicle(&CAR, l);
        warm_up(&mut s);
        let (pa, va) = (sym::f64("pa", 0.0, 300.0), sym::f64("va", 0.0, 40.0));
        let (pb, vb) = (sym::f64("pb", 0.0, 300.0), sym::f64("vb", 0.0, 40.0));
        s.verif_set_motion(a, pa, va);
        s.verif_set_motion(b, pb, vb);
        let dt = sym::f64("dt", 0.0, 2.0);
        s.step(dt);
        let (p, v) = motion(&s, a);
        sym::check(p >= pa - EPS, "never-backwards");
        kinematics(&car, va, v, p - pa, dt);
    }

    fn h_c01_cross() {
        let mut s = Simulation::new();
        let [l1, l2] = chain(&mut s, 50.0, 300.0, [16.0, 12.0]);
        let car = any_car();
        let a = car_to(&mut s, &car, l1, l2);
        warm_up(&mut s);
        let (pa, va) = (sym::f64("pa", 0.0, 50.0), sym::f64("va", 0.0, 40.0));
        s.verif_set_motion(a, pa, va);
        let dt = sym::f64("dt", 0.0, 2.0);
        s.step(dt);
        let (p, v) = motion(&s, a);
        let crossed = s.get_vehicle(a).link_id() == Some(l2);
        let dist = if crossed { 50.0 - pa + p } else { p - pa };
        kinematics(&car, va, v, dist, dt);
        sym::cover(crossed, "crosses");
        sym::cover(!crossed, "stays");
    }

    fn h_c01_closed() {
        let mut s = Simulation::new();
        let [l1, l2] = chain(&mut s, 100.0, 300.0, [16.0, 12.0]);
        let car = any_car();
        let a = car_to(&mut s, &car, l1, l2);
        warm_up(&mut s);
        s.set_link_control(l2, TrafficControl::Closed);
        let (pa, va) = (sym::f64("pa", 0.0, 80.0), sym::f64("va", 0.0, 40.0));
        s.verif_set_motion(a, pa, va);
        let dt = sym::f64("dt", 0.0, 0.5);
        s.step(dt);
        let (p, v) = motion(&s, a);
        sym::check(p >= pa - EPS, "never-backwards");
        kinematics(&car, va, v, p - pa, dt);
        sym::check((v > 0.0) | (va > 0.0) | close(p, pa), "stays-put");
    }

    fn h_c01_between_refreshes() {
        let mut s = Simulation::new();
        let l = line(&mut s, [0.0, 0.0], [400.0, 0.0], 16.0);
        let car = any_car();
        let a = s.add_vehicle(&car, l);
        let b = s.add_vehicle(&CAR, l);
        warm_up(&mut s);
        s.verif_set_motion(a, sym::f64("pa", 0.0, 100.0), sym::f64("va", 0.0, 40.0));
        s.verif_set_motion(b, sym::f64("pb", 110.0, 300.0), 0.0);
        s.step(0.05);
        // the next step reuses the acceleration of the previous one
        let (pa, va) = (sym::f64("pa2", 0.0, 100.0), sym::f64("va2", 0.0, 40.0));
        s.verif_set_motion(a, pa, va);
        let dt = sym::f64("dt", 0.0, 2.0);
        s.step(dt);
        let (p, v) = motion(&s, a);
        sym::check(p >= pa - EPS, "never-backwards");
        kinematics(&car, va, v, p - pa, dt);
    }
}
