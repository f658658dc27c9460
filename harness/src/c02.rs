//! C02: following the vehicle ahead.

use crate::sym;
use crate::util::*;
use traffic_sim::{Simulation, VehicleAttributes};

fn attribs() -> VehicleAttributes {
    VehicleAttributes {
        max_acc: sym::f64("max_acc", 0.5, 5.0),
        comf_dec: sym::f64("comf_dec", 0.5, 5.0),
        headway: sym::f64("headway", 0.0, 4.0),
        ..CAR
    }
}

harnesses! {
    fn h_c02_same_link() {
        let mut s = Simulation::new();
        let l = line(&mut s, [0.0, 0.0], [400.0, 0.0], 16.0);
        let car = attribs();
        let a = s.add_vehicle(&car, l);
        let b = s.add_vehicle(&VehicleAttributes { length: sym::f64("their_length", 1.0, 20.0), ..CAR }, l);
        warm_up(&mut s);
        let (va, vb) = (sym::f64("va", 0.0, 40.0), sym::f64("vb", 0.0, 40.0));
        let (pa, pb) = (sym::f64("pa", 0.0, 100.0), sym::f64("pb", 110.0, 300.0));
        s.verif_set_motion(a, pa, va);
        s.verif_set_motion(b, pb, vb);
        let gap = s.get_vehicle(b).pos_rear() - s.get_vehicle(a).pos_front();
        let dt = sym::f64("dt", 0.0, 1.0);
        s.step(dt);
        let (_, v) = motion(&s, a);
        let acc = min(free(&car, va, 16.0), idm(&car, gap, va, vb));
        sym::check(close(v, next_speed(va, acc, dt)), "as-the-model-demands");
        sym::cover(gap < 2.0, "bumper-to-bumper");
        sym::cover(v > va + 0.1, "speeds-up");
        sym::cover(v < va - 0.1, "brakes");
    }

    // The vehicle ahead is on the next link of the route.
    fn h_c02_next_link() {
        let mut s = Simulation::new();
        let [l1, l2] = chain(&mut s, 100.0, 300.0, [16.0, 16.0]);
        let car = attribs();
        let a = car_to(&mut s, &car, l1, l2);
        let b = s.add_vehicle(&CAR, l2);
        warm_up(&mut s);
        let (va, vb) = (sym::f64("va", 0.0, 16.0), sym::f64("vb", 0.0, 40.0));
        let (pa, pb) = (sym::f64("pa", 30.0, 90.0), sym::f64("pb", 0.0, 100.0));
        s.verif_set_motion(a, pa, va);
        s.verif_set_motion(b, pb, vb);
        let gap = 100.0 + s.get_vehicle(b).pos_rear() - s.get_vehicle(a).pos_front();
        let dt = sym::f64("dt", 0.0, 0.5);
        s.step(dt);
        let (_, v) = motion(&s, a);
        let acc = min(free(&car, va, 16.0), idm(&car, gap, va, vb));
        sym::check(close(v, next_speed(va, acc, dt)), "as-the-model-demands");
        sym::cover(v > va + 0.1, "speeds-up");
        sym::cover(v < va - 0.1, "brakes");
    }

    // Only the nearest vehicle ahead counts; vehicles behind do not.
    fn h_c02_three() {
        let mut s = Simulation::new();
        let l = line(&mut s, [0.0, 0.0], [400.0, 0.0], 16.0);
        let [a, b, c] = [0, 1, 2].map(|_| s.add_vehicle(&CAR, l));
        warm_up(&mut s);
        let (va, vb) = (sym::f64("va", 0.0, 16.0), sym::f64("vb", 0.0, 16.0));
        let (pa, pb) = (sym::f64("pa", 0.0, 100.0), sym::f64("pb", 100.0, 200.0));
        let (pc, vc) = (sym::f64("pc", 0.0, 300.0), sym::f64("vc", 0.0, 16.0));
        // the third one is behind a or ahead of b, in either case farther away
        sym::assume((pb > pa + 5.0) & ((pc < pa - 1.0) | (pc > pb + 1.0)));
        s.verif_set_motion(c, pc, vc);
        s.verif_set_motion(b, pb, vb);
        s.verif_set_motion(a, pa, va);
        let gap = s.get_vehicle(b).pos_rear() - s.get_vehicle(a).pos_front();
        s.step(0.1);
        let (_, v) = motion(&s, a);
        let acc = min(free(&CAR, va, 16.0), idm(&CAR, gap, va, vb));
        sym::check(close(v, next_speed(va, acc, 0.1)), "nearest-ahead-counts");
        sym::cover(pc < pa, "third-behind");
        sym::cover(pc > pb, "third-ahead");
    }

    // A vehicle that pulls away does not make the one behind brake.
    fn h_c02_pulling_away() {
        let mut s = Simulation::new();
        let l = line(&mut s, [0.0, 0.0], [400.0, 0.0], 16.0);
        let car = attribs();
        let a = s.add_vehicle(&car, l);
        let b = s.add_vehicle(&CAR, l);
        warm_up(&mut s);
        let (va, vb) = (sym::f64("va", 0.0, 16.0), sym::f64("vb", 0.0, 40.0));
        let (pa, pb) = (sym::f64("pa", 0.0, 100.0), sym::f64("pb", 100.0, 300.0));
        s.verif_set_motion(a, pa, va);
        s.verif_set_motion(b, pb, vb);
        let gap = s.get_vehicle(b).pos_rear() - s.get_vehicle(a).pos_front();
        sym::assume((vb >= va) & (gap > 2.0 + va * car.headway + 0.01));
        let dt = sym::f64("dt", 0.0, 1.0);
        s.step(dt);
        let (_, v) = motion(&s, a);
        sym::check(v >= va - TOL, "no-braking");
        sym::cover(vb > va + 10.0, "pulls-away");
    }

    // A smaller gap or a slower vehicle ahead never means more acceleration.
    fn h_c02_monotone() {
        let car = VehicleAttributes { headway: sym::f64("headway", 0.0, 4.0), ..CAR };
        let va = sym::f64("va", 0.0, 40.0);
        let run = |pb: f64, vb: f64| {
            let mut s = Simulation::new();
            let l = line(&mut s, [0.0, 0.0], [400.0, 0.0], 16.0);
            let a = s.add_vehicle(&car, l);
            let b = s.add_vehicle(&CAR, l);
            warm_up(&mut s);
            s.verif_set_motion(a, 50.0, va);
            s.verif_set_motion(b, pb, vb);
            s.step(0.1);
            motion(&s, a).1
        };
        let (p1, v1) = (sym::f64("p1", 55.0, 200.0), sym::f64("v1", 0.0, 40.0));
        let (p2, v2) = (sym::f64("p2", 55.0, 200.0), sym::f64("v2", 0.0, 40.0));
        // the response jumps where the gap falls to 2 m; not within a millimetre of that
        sym::assume((p2 <= p1) & (v2 <= v1) & ((p1 - 57.0).abs() > 0.001) & ((p2 - 57.0).abs() > 0.001));
        sym::check(run(p2, v2) <= run(p1, v1) + TOL, "more-caution-never-faster");
    }
}
