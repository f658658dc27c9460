//! C05: frozen vehicles.

use crate::sym;
use crate::util::*;
use traffic_sim::{Simulation, TrafficControl};

harnesses! {
    // Whatever the situation, a frozen vehicle brakes with 6 m/s^2 to a stand.
    fn h_c05_brakes() {
        let mut s = Simulation::new();
        let [l1, l2] = chain(&mut s, 200.0, 400.0, [16.0, 16.0]);
        let car = any_car();
        let a = car_to(&mut s, &car, l1, l2);
        let b = s.add_vehicle(&CAR, l1);
        warm_up(&mut s);
        if sym::bool("closed") {
            s.set_link_control(l2, TrafficControl::Closed);
        }
        let (pa, va) = (sym::f64("pa", 0.0, 150.0), sym::f64("va", 0.0, 40.0));
        s.verif_set_motion(a, pa, va);
        s.verif_set_motion(b, sym::f64("pb", 0.0, 150.0), sym::f64("vb", 0.0, 40.0));
        s.set_vehicle_frozen(a, true);
        let dt = sym::f64("dt", 0.0, 1.0);
        s.step(dt);
        let (p, v) = motion(&s, a);
        sym::check(close(v, max(va - MAX_DEC * dt, 0.0)), "full-braking");
        sym::check((va > 0.0) | close(p, pa), "stays-where-it-stands");
        sym::cover(v > 1.0, "still-moving");
        sym::cover((v < TOL) & (va > 1.0), "stopped");
    }

    // It stays stopped however time passes.
    fn h_c05_stays() {
        let mut s = Simulation::new();
        let l = line(&mut s, [0.0, 0.0], [400.0, 0.0], 16.0);
        let a = s.add_vehicle(&CAR, l);
        warm_up(&mut s);
        let pa = sym::f64("pa", 0.0, 150.0);
        s.verif_set_motion(a, pa, 0.0);
        s.set_vehicle_frozen(a, true);
        for _ in 0..4 {
            s.step(sym::f64("dt", 0.0, 1.0));
            let (p, v) = motion(&s, a);
            sym::check(close(p, pa) & close(v, 0.0), "stays-stopped");
        }
        sym::check(s.get_vehicle_frozen(a), "still-frozen");
    }

    // Thawed, it drives as if nothing had happened, however often it was frozen
    // and whether or not another one still is.
    fn h_c05_release() {
        let va = sym::f64("va", 0.0, 30.0);
        let (pb, vb) = (sym::f64("pb", 110.0, 300.0), sym::f64("vb", 0.0, 30.0));
        let dt = sym::f64("dt", 0.0, 1.0);
        let car = any_car();
        let times = sym::choice("times", 1, 2);
        let other = sym::bool("other");
        let run = |freeze: bool| {
            let mut s = Simulation::new();
            let l = line(&mut s, [0.0, 0.0], [400.0, 0.0], 16.0);
            let a = s.add_vehicle(&car, l);
            let b = s.add_vehicle(&CAR, l);
            s.verif_set_motion(b, 50.0, 0.0);
            s.set_vehicle_frozen(b, true);
            if freeze {
                for _ in 0..times {
                    s.set_vehicle_frozen(a, true);
                }
            }
            warm_up(&mut s);
            if freeze {
                s.set_vehicle_frozen(a, false);
            }
            s.set_vehicle_frozen(b, other);
            s.verif_set_motion(a, 100.0, va);
            s.verif_set_motion(b, pb, vb);
            s.step(dt);
            sym::check(!s.get_vehicle_frozen(a), "thawed");
            motion(&s, a)
        };
        let (x, y) = (run(true), run(false));
        sym::check(close(x.0, y.0) & close(x.1, y.1), "as-if-never-frozen");
    }

    // The status reads back as last set, for each vehicle on its own.
    fn h_c05_status() {
        let mut s = Simulation::new();
        let l = line(&mut s, [0.0, 0.0], [200.0, 0.0], 16.0);
        let ids = [0, 1, 2].map(|_| s.add_vehicle(&CAR, l));
        let mut frozen = [false; 3];
        let mut here = [true; 3];
        for _ in 0..4 {
            let k = sym::choice("vehicle", 0, 2);
            match sym::choice("action", 0, 2) {
                0 => {
                    s.set_vehicle_frozen(ids[k], true);
                    frozen[k] = true;
                }
                1 => {
                    s.set_vehicle_frozen(ids[k], false);
                    frozen[k] = false;
                }
                _ => {
                    s.remove_vehicle(ids[k]);
                    here[k] = false;
                }
            }
            for i in 0..3 {
                sym::check(!here[i] | (s.get_vehicle_frozen(ids[i]) == frozen[i]), "reads-back-as-set");
            }
        }
        warm_up(&mut s);
        for i in 0..3 {
            if here[i] {
                s.verif_set_motion(ids[i], 30.0 * i as f64, 2.0);
            }
        }
        s.step(0.3);
        s.step(0.3);
        for i in 0..3 {
            sym::note("frozen", s.get_vehicle_frozen(ids[i]) as u8 as f64);
            if here[i] {
                sym::check(s.get_vehicle_frozen(ids[i]) == frozen[i], "reads-back-after-a-step");
                sym::check((motion(&s, ids[i]).1 > 1.0) | frozen[i], "others-not-stopped");
                sym::check(!frozen[i] | close(motion(&s, ids[i]).1, 0.0), "frozen-stopped");
            }
        }
        // a newcomer is never frozen
        let new = s.add_vehicle(&CAR, l);
        sym::check(!s.get_vehicle_frozen(new), "newcomer-not-frozen");
    }
}
