//! C20: crossing and merging links.

use crate::sym;
use crate::util::*;
use traffic_sim::{LinkId, Simulation, VehicleAttributes};

const LIMIT: f64 = 16.0;

/// Declares that two links converge, in either order.
fn converge(s: &mut Simulation, a: LinkId, b: LinkId) {
    if sym::choice("order", 0, 1) == 1 {
        s.add_link_convergance(a, b);
    } else {
        s.add_link_convergance(b, a);
    }
}

/// A road to the east and another one to the north that crosses it at the origin
/// after 60 m and the returned number of metres, respectively.
fn crossing(s: &mut Simulation) -> (LinkId, LinkId, f64) {
    let east = |s: &mut Simulation| line(s, [-60.0, 0.0], [60.0, 0.0], LIMIT);
    let north = |s: &mut Simulation, to: f64| line(s, [0.0, -to], [0.0, 60.0], LIMIT);
    let (a, b, to) = if sym::choice("first", 0, 1) == 1 {
        let a = east(s);
        (a, north(s, 60.0), 60.0)
    } else {
        let b = north(s, 40.0);
        (east(s), b, 40.0)
    };
    converge(s, a, b);
    (a, b, to)
}

/// How far from the centre the shared area of the crossing starts and ends.
const AREA: f64 = 2.0;
/// The uncertainty about it.
const SLACK: f64 = 0.3;

/// The claims about a vehicle going `v0` whose front is `front` metres after the
/// start of the area, when it yields.
fn yields(v0: f64, v: f64, dt: f64, front: f64) {
    let alone = free(&CAR, v0, LIMIT);
    let least = next_speed(v0, min(alone, idm(&CAR, -front - SLACK, v0, 0.0)), dt);
    let most = next_speed(v0, min(alone, idm(&CAR, -front + SLACK, v0, 0.0)), dt);
    sym::check(v <= most + TOL, "brakes");
    sym::check(v >= least - TOL, "brakes-for-the-start-of-the-area");
}

fn alone(v0: f64, v: f64, dt: f64) {
    sym::check(close(v, next_speed(v0, free(&CAR, v0, LIMIT), dt)), "not-slowed");
}

harnesses! {
    fn h_c20_cross() {
        let mut s = Simulation::new();
        let (l1, l2, to) = crossing(&mut s);
        let [a, b] = [l1, l2].map(|l| car_to(&mut s, &CAR, l, l));
        warm_up(&mut s);
        let (va, vb) = (sym::f64("va", 0.0, 16.0), sym::f64("vb", 0.0, 16.0));
        let (pa, pb) = (sym::f64("pa", 0.0, 110.0), sym::f64("pb", 0.0, 90.0));
        s.verif_set_motion(a, pa, va);
        s.verif_set_motion(b, pb, vb);
        s.step(0.1);
        let [v, w] = [a, b].map(|v| s.get_vehicle(v).vel());
        sym::note("va", v);
        sym::note("vb", w);
        let (fa, fb) = (pa + 2.5 - 60.0 + AREA, pb + 2.5 - to + AREA);
        let gone = |f: f64| f - 5.0 > 2.0 * AREA + SLACK;
        let there = |f: f64| f - 5.0 < 2.0 * AREA - SLACK;
        if (fa < fb - 0.1) & there(fb) {
            yields(va, v, 0.1, fa);
            alone(vb, w, 0.1);
        } else if (fb < fa - 0.1) & there(fa) {
            yields(vb, w, 0.1, fb);
            alone(va, v, 0.1);
        } else if gone(fa) | gone(fb) {
            alone(va, v, 0.1);
            alone(vb, w, 0.1);
        }
    }

    // Links that run side by side, too close to each other.
    fn h_c20_overlap() {
        let mut s = Simulation::new();
        let l1 = line(&mut s, [0.0, 0.0], [200.0, 0.0], LIMIT);
        let l2 = line(&mut s, [0.0, 2.0], [200.0, 2.0], LIMIT);
        converge(&mut s, l1, l2);
        let [a, b] = [l1, l2].map(|l| car_to(&mut s, &CAR, l, l));
        warm_up(&mut s);
        let (va, vb) = (sym::f64("va", 0.0, 16.0), sym::f64("vb", 0.0, 16.0));
        let (pa, pb) = (sym::f64("pa", 3.0, 70.0), sym::f64("pb", 3.0, 70.0));
        s.verif_set_motion(a, pa, va);
        s.verif_set_motion(b, pb, vb);
        sym::assume((pa - pb).abs() > 0.1);
        s.step(0.1);
        let [v, w] = [a, b].map(|v| s.get_vehicle(v).vel());
        sym::note("va", v);
        sym::note("vb", w);
        if pa < pb {
            let gap = pb - pa - 5.0;
            let acc = min(free(&CAR, va, LIMIT), idm(&CAR, gap, va, vb));
            sym::check(((gap - 2.0).abs() < 0.01) | close(v, next_speed(va, acc, 0.1)), "follows");
            alone(vb, w, 0.1);
        } else {
            let gap = pa - pb - 5.0;
            let acc = min(free(&CAR, vb, LIMIT), idm(&CAR, gap, vb, va));
            sym::check(((gap - 2.0).abs() < 0.01) | close(w, next_speed(vb, acc, 0.1)), "follows");
            alone(va, v, 0.1);
        }
    }

    // Two links that end in the same place, one straight and one from aside.
    fn h_c20_merge() {
        let mut s = Simulation::new();
        let side = if sym::choice("side", 0, 1) == 1 { -36.0 } else { 36.0 };
        let l1 = line(&mut s, [-60.0, 0.0], [0.0, 0.0], LIMIT);
        let l2 = line(&mut s, [-48.0, side], [0.0, 0.0], LIMIT);
        let l3 = line(&mut s, [0.0, 0.0], [150.0, 0.0], LIMIT);
        s.add_link_connection(l1, l3);
        s.add_link_connection(l2, l3);
        converge(&mut s, l1, l2);
        let [a, b] = [l1, l2].map(|l| car_to(&mut s, &CAR, l, l3));
        warm_up(&mut s);
        let va = 5.0 * sym::choice("va", 0, 3) as f64;
        let pa = sym::f64("pa", 10.0, 50.0);
        let pb = [30.0, 45.5, 55.5, 57.5, 59.5][sym::choice("pb", 0, 4) as usize];
        let vb = 5.0;
        s.verif_set_motion(a, pa, va);
        s.verif_set_motion(b, pb, vb);
        sym::assume((pa - pb).abs() > 0.1);
        let tail = s.get_vehicle(b).rear_coords();
        let gap = min(tail[0].x, tail[1].x) - (pa - 60.0) - 2.5;
        s.step(0.1);
        let [v, w] = [a, b].map(|v| s.get_vehicle(v).vel());
        sym::note("va", v);
        sym::note("vb", w);
        let start = 60.0 - 5.4;
        if pa < pb {
            if pb - 2.5 > start + SLACK {
                let acc = min(free(&CAR, va, LIMIT), idm(&CAR, gap, va, vb));
                sym::check(((gap - 2.0).abs() < 0.01) | close(v, next_speed(va, acc, 0.1)), "follows");
            } else {
                yields(va, v, 0.1, pa + 2.5 - start);
            }
            alone(vb, w, 0.1);
        } else {
            alone(va, v, 0.1);
            yields(vb, w, 0.1, pb + 2.5 - start);
        }
    }

    // Three vehicles: each one yields to the one just ahead on the other link.
    fn h_c20_three() {
        let mut s = Simulation::new();
        let (l1, l2, to) = crossing(&mut s);
        let [a, b, c] = [l1, l2, l1].map(|l| car_to(&mut s, &CAR, l, l));
        warm_up(&mut s);
        let (va, vb, vc) = (10.0, sym::f64("vb", 0.0, 16.0), 12.0);
        let (pb, pc) = (sym::f64("pb", 0.0, 49.0), sym::f64("pc", 0.0, 49.0));
        s.verif_set_motion(a, 58.0, va);
        s.verif_set_motion(b, pb - (60.0 - to), vb);
        s.verif_set_motion(c, pc, vc);
        sym::assume((pb > pc + 0.1) & (pb > 60.0 - to));
        s.step(0.1);
        let [u, v, w] = [a, b, c].map(|v| s.get_vehicle(v).vel());
        sym::note("vb", v);
        sym::note("vc", w);
        alone(va, u, 0.1);
        yields(vb, v, 0.1, pb + 2.5 - 60.0 + AREA);
        let most = idm(&CAR, 60.0 - AREA - pc - 2.5 + SLACK, vc, 0.0);
        sym::check(w <= next_speed(vc, min(free(&CAR, vc, LIMIT), most), 0.1) + TOL, "brakes");
    }

    // Coming from the links before the crossing ones.
    fn h_c20_before() {
        let mut s = Simulation::new();
        let l0 = line(&mut s, [-80.0, 0.0], [-20.0, 0.0], LIMIT);
        let l1 = line(&mut s, [-20.0, 0.0], [60.0, 0.0], LIMIT);
        let l2 = line(&mut s, [0.0, -60.0], [0.0, 60.0], LIMIT);
        s.add_link_connection(l0, l1);
        converge(&mut s, l1, l2);
        let a = car_to(&mut s, &CAR, l0, l1);
        let b = car_to(&mut s, &CAR, l2, l2);
        warm_up(&mut s);
        // close enough to have committed itself to the next link
        s.verif_set_motion(a, 50.0, 10.0);
        s.step(0.15);
        sym::check(s.get_vehicle(a).link_id() == Some(l0), "not-there-yet");
        let (va, vb) = (sym::f64("va", 0.0, 16.0), sym::f64("vb", 0.0, 16.0));
        let (pa, pb) = (sym::f64("pa", 40.0, 58.0), sym::f64("pb", 0.0, 80.0));
        s.verif_set_motion(a, pa, va);
        s.verif_set_motion(b, pb, vb);
        s.step(0.1);
        let [v, w] = [a, b].map(|v| s.get_vehicle(v).vel());
        sym::note("va", v);
        sym::note("vb", w);
        let (fa, fb) = (pa + 2.5 - 80.0 + AREA, pb + 2.5 - 60.0 + AREA);
        if (fa < fb - 0.1) & (fb - 5.0 < 2.0 * AREA - SLACK) {
            yields(va, v, 0.1, fa);
            alone(vb, w, 0.1);
        } else if fb < fa - 0.1 {
            yields(vb, w, 0.1, fb);
            alone(va, v, 0.1);
        } else if fb - 5.0 > 2.0 * AREA + SLACK {
            alone(va, v, 0.1);
        }
    }

    // Two vehicles on one of the links, one far behind on the other one: the second vehicle
    // just follows the first.
    fn h_c20_same() {
        let mut s = Simulation::new();
        let (l1, l2, to) = crossing(&mut s);
        let [a, b, c] = [l1, l2, l1].map(|l| car_to(&mut s, &CAR, l, l));
        warm_up(&mut s);
        let (va, vb, vc) = (10.0, 8.0, sym::f64("vc", 0.0, 16.0));
        let (pb, pc) = (sym::f64("pb", 0.0, 49.0), sym::f64("pc", 0.0, 50.0));
        s.verif_set_motion(a, 60.0, va);
        s.verif_set_motion(b, pb - (60.0 - to), vb);
        s.verif_set_motion(c, pc, vc);
        sym::assume((pb < pc - 0.1) & (pb > 60.0 - to));
        s.step(0.1);
        let [u, v, w] = [a, b, c].map(|v| s.get_vehicle(v).vel());
        sym::note("vb", v);
        sym::note("vc", w);
        alone(va, u, 0.1);
        yields(vb, v, 0.1, pb + 2.5 - 60.0 + AREA);
        let acc = min(free(&CAR, vc, LIMIT), idm(&CAR, 55.0 - pc, vc, va));
        sym::check(close(w, next_speed(vc, acc, 0.1)), "just-follows");
    }

    // A truck and a car.
    fn h_c20_lengths() {
        let mut s = Simulation::new();
        let (l1, l2, to) = crossing(&mut s);
        let length = sym::f64("length", 6.0, 20.0);
        let a = car_to(&mut s, &VehicleAttributes { length, ..CAR }, l1, l1);
        let b = car_to(&mut s, &CAR, l2, l2);
        warm_up(&mut s);
        let (va, vb) = (4.0, 6.0);
        let (pa, pb) = (sym::f64("pa", 10.0, 80.0), sym::f64("pb", 0.0, 70.0));
        s.verif_set_motion(a, pa, va);
        s.verif_set_motion(b, pb, vb);
        s.step(0.1);
        let [v, w] = [a, b].map(|v| s.get_vehicle(v).vel());
        sym::note("va", v);
        sym::note("vb", w);
        let (fa, fb) = (pa + 0.5 * length - 60.0 + AREA, pb + 2.5 - to + AREA);
        let gone = |f: f64, length: f64| f - length > 2.0 * AREA + SLACK;
        let there = |f: f64, length: f64| f - length < 2.0 * AREA - SLACK;
        if (fa < fb - 0.1) & there(fb, 5.0) & there(fa, length) {
            yields(va, v, 0.1, fa);
            alone(vb, w, 0.1);
        } else if (fb < fa - 0.1) & there(fa, length) & there(fb, 5.0) {
            yields(vb, w, 0.1, fb);
            alone(va, v, 0.1);
        } else if gone(fa, length) | gone(fb, 5.0) {
            alone(va, v, 0.1);
            alone(vb, w, 0.1);
        }
        sym::cover((fb < fa - 0.1) & there(fa, length) & (fa > 3.0 * AREA), "rear-in-the-way");
    }
}
