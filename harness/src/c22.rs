//! C22: cadence of updates and independence of the unconnected.

use crate::sym;
use crate::util::*;
use traffic_sim::{LinkId, Simulation, VehicleId};

/// A timer as the documentation describes it: due at least every so often.
struct Timer {
    since: f64,
    every: f64,
}

impl Timer {
    /// Whether the coming step, of length `dt`, starts with an update. The
    /// moments at which rounding decides are left out.
    fn due(&mut self, dt: f64) -> bool {
        sym::assume((self.since - self.every).abs() > 1e-6);
        let due = self.since >= self.every;
        if due {
            self.since = 0.0;
        }
        self.since += dt;
        due
    }
}

fn dt() -> f64 {
    sym::f64("dt", 0.0, 0.4)
}

/// Two links that have nothing to do with each other.
fn two_links(s: &mut Simulation) -> [LinkId; 2] {
    [line(s, [0.0, 0.0], [400.0, 0.0], 16.0), line(s, [0.0, 50.0], [400.0, 50.0], 16.0)]
}

fn brakes_from(steps: usize) {
    let mut s = Simulation::new();
    let l = two_links(&mut s);
    let v = l.map(|l| s.add_vehicle(&CAR, l));
    warm_up(&mut s);
    // at the limit: no acceleration
    v.map(|v| s.verif_set_motion(v, 50.0, 16.0));
    let frame = s.frame();
    let at = sym::choice("frozen_at", 0, steps as u64 - 1);
    let mut timer = Timer { since: 1.0, every: 0.1 };
    let (mut vel, mut pos, mut braking) = (16.0, 50.0, false);
    for k in 0..steps {
        if k == at {
            v.map(|v| s.set_vehicle_frozen(v, true));
        }
        let dt = dt();
        s.step(dt);
        braking |= timer.due(dt) & (k >= at);
        let before = vel;
        vel = if braking { max(vel - MAX_DEC * dt, 0.0) } else { vel };
        pos += 0.5 * (before + vel) * dt;
        for v in v {
            let (p, u) = motion(&s, v);
            sym::check(close(u, vel), "reacts-when-due");
            sym::check(close(p, pos), "moves-every-step");
        }
        sym::check(s.frame() == frame + k + 1, "frame-counted");
        sym::cover((k == at) & !braking, "keeps-acceleration-between-updates");
    }
}

fn finds_way_from(steps: usize) {
    let mut s = Simulation::new();
    let [l1, l2] = chain(&mut s, 200.0, 400.0, [16.0, 16.0]);
    let v = s.add_vehicle(&CAR, l1);
    warm_up(&mut s);
    // right before the line: stands there until it knows where to go
    s.verif_set_motion(v, 195.8, 0.0);
    let at = sym::choice("destination_at", 0, steps as u64 - 1);
    let mut lanes = Timer { since: 1.0, every: 0.3 };
    let mut acc = Timer { since: 1.0, every: 0.1 };
    let (mut knows, mut drives) = (false, false);
    for k in 0..steps {
        if k == at {
            s.set_vehicle_destination(v, l2);
        }
        let before = s.get_vehicle(v).vel();
        let dt = dt();
        s.step(dt);
        knows |= lanes.due(dt) & (k >= at);
        if acc.due(dt) {
            drives = knows;
        }
        let (_, u) = motion(&s, v);
        let brakes = close(u, max(before - MAX_DEC * dt, 0.0));
        let drives_on = (u >= before + 1.9 * dt - TOL) & (u <= before + 2.0 * dt + TOL);
        sym::check(if drives { drives_on } else { brakes }, "finds-way-when-due");
        sym::cover((k > at) & !drives, "lane-decisions-wait");
        sym::cover(drives, "drives-on");
    }
}

/// Two vehicles behind each other; `extra` adds others elsewhere, in between.
fn pair(extra: bool, order: usize) -> (Simulation, [VehicleId; 2], Vec<VehicleId>) {
    let mut s = Simulation::new();
    let mut others = vec![];
    let mut other = |s: &mut Simulation, when: usize| {
        if extra & (order == when) {
            let l = line(s, [0.0, 50.0], [300.0, 50.0], 12.0);
            let m = line(s, [0.0, 60.0], [300.0, 60.0], 12.0);
            others.push(s.add_vehicle(&CAR, l));
            others.push(s.add_vehicle(&CAR, m));
        }
    };
    other(&mut s, 0);
    let l = line(&mut s, [0.0, 0.0], [400.0, 0.0], 16.0);
    other(&mut s, 1);
    let a = s.add_vehicle(&CAR, l);
    other(&mut s, 2);
    let b = s.add_vehicle(&CAR, l);
    warm_up(&mut s);
    (s, [a, b], others)
}

harnesses! {
    fn h_c22_acceleration() {
        brakes_from(4);
    }

    fn h_c22_acceleration_deep() {
        brakes_from(5);
    }

    fn h_c22_lanes() {
        finds_way_from(3);
    }

    // The same with and without vehicles elsewhere.
    fn h_c22_independent() {
        let (mut s, v, _) = pair(false, 0);
        let (mut t, w, others) = pair(true, sym::choice("order", 0, 2));
        let motions = [
            (sym::f64("pa", 20.0, 100.0), sym::f64("va", 0.0, 30.0)),
            (sym::f64("pb", 120.0, 200.0), sym::f64("vb", 0.0, 30.0)),
        ];
        for k in 0..2 {
            s.verif_set_motion(v[k], motions[k].0, motions[k].1);
            t.verif_set_motion(w[k], motions[k].0, motions[k].1);
            t.verif_set_motion(others[k], sym::f64("po", 0.0, 250.0), sym::f64("vo", 0.0, 30.0));
        }
        if sym::bool("frozen") {
            t.set_vehicle_frozen(others[0], true);
        }
        let dt = dt();
        s.step(dt);
        t.step(dt);
        for k in 0..2 {
            let (p, u) = motion(&s, v[k]);
            let (q, w) = motion(&t, w[k]);
            sym::check(close(p, q) & close(u, w), "not-affected");
            sym::cover(u < motions[k].1, "slows-down");
        }
    }

    // Which of two vehicles was added first does not matter.
    fn h_c22_order() {
        let (mut s, v, _) = pair(false, 0);
        let (mut t, w, _) = pair(false, 0);
        let (pa, va) = (sym::f64("pa", 20.0, 100.0), sym::f64("va", 0.0, 30.0));
        let (pb, vb) = (sym::f64("pb", 120.0, 200.0), sym::f64("vb", 0.0, 30.0));
        s.verif_set_motion(v[0], pa, va);
        s.verif_set_motion(v[1], pb, vb);
        t.verif_set_motion(w[1], pa, va);
        t.verif_set_motion(w[0], pb, vb);
        let dt = dt();
        s.step(dt);
        t.step(dt);
        for k in 0..2 {
            let (p, u) = motion(&s, v[k]);
            let (q, w) = motion(&t, w[1 - k]);
            sym::check(close(p, q) & close(u, w), "same-in-either-order");
        }
    }
}
