//! C17: minimum reach time.

use crate::sym;
use crate::util::*;
use traffic_sim::{Simulation, VehicleAttributes, VehicleId};

fn setup() -> (Simulation, VehicleId, f64) {
    let mut s = Simulation::new();
    let l = line(&mut s, [0.0, 0.0], [400.0, 0.0], 16.0);
    let acc = sym::f64("max_acc", 0.5, 5.0);
    let v = s.add_vehicle(&VehicleAttributes { max_acc: acc, ..CAR }, l);
    (s, v, acc)
}

/// Distance covered in `t` seconds of flat-out driving up to `top`.
fn covered(vel: f64, acc: f64, top: f64, t: f64) -> f64 {
    let ramp = (top - vel) / acc;
    if t <= ramp {
        vel * t + 0.5 * acc * t * t
    } else {
        0.5 * (vel + top) * ramp + (t - ramp) * top
    }
}

harnesses! {
    // Below the top speed: driving the schedule covers the distance.
    fn h_c17_exact() {
        let (mut s, v, acc) = setup();
        let (pos, vel) = (sym::f64("pos", 0.0, 300.0), sym::f64("vel", 0.0, 40.0));
        s.verif_set_motion(v, pos, vel);
        let top = sym::f64("top", 1.0, 40.0);
        sym::assume(vel <= top);
        let d = sym::f64("d", 0.0, 300.0);
        let t = s.get_vehicle(v).min_reach_time(pos + d, top);
        sym::note("t", t);
        sym::check(t >= -TOL, "not-negative");
        sym::check(close(0.01 * covered(vel, acc, top, t), 0.01 * d), "covers-the-distance");
        sym::cover(t * acc + vel > top, "reaches-top-speed");
        sym::cover(t * acc + vel < top, "still-accelerating");
    }

    // Already faster than the top speed: it keeps its speed.
    fn h_c17_fast() {
        let (mut s, v, _) = setup();
        let (pos, vel) = (sym::f64("pos", 0.0, 300.0), sym::f64("vel", 1.0, 40.0));
        s.verif_set_motion(v, pos, vel);
        let top = sym::f64("top", 1.0, 40.0);
        sym::assume(vel >= top);
        let d = sym::f64("d", 0.0, 300.0);
        let t = s.get_vehicle(v).min_reach_time(pos + d, top);
        sym::note("t", t);
        sym::check(close(0.1 * t * vel, 0.1 * d), "keeps-its-speed");
        sym::check(t >= -TOL, "not-negative");
    }

    fn h_c17_behind() {
        let (mut s, v, _) = setup();
        let (pos, vel) = (sym::f64("pos", 0.0, 300.0), sym::f64("vel", 0.0, 40.0));
        s.verif_set_motion(v, pos, vel);
        let d = sym::f64("d", -300.0, 0.0);
        let t = s.get_vehicle(v).min_reach_time(pos + d, sym::f64("top", 1.0, 40.0));
        sym::note("t", t);
        sym::check(close(t, 0.0), "zero-at-or-behind");
    }

    // Further away takes longer.
    fn h_c17_monotone() {
        let (mut s, v, _) = setup();
        let (pos, vel) = (sym::f64("pos", 0.0, 300.0), sym::f64("vel", 0.0, 40.0));
        let top = sym::f64("top", 1.0, 40.0);
        let (d1, d2) = (sym::f64("d1", 0.0, 300.0), sym::f64("d2", 0.0, 300.0));
        sym::assume((d1 <= d2) & (vel <= top));
        s.verif_set_motion(v, pos, vel);
        let t1 = s.get_vehicle(v).min_reach_time(pos + d1, top);
        let t2 = s.get_vehicle(v).min_reach_time(pos + d2, top);
        sym::note("t1", t1);
        sym::note("t2", t2);
        sym::check(t1 <= t2 + TOL, "longer-for-further");
        sym::cover(t1 < t2 - 1.0, "strictly-longer");
    }
}
