//! C10: conservation of vehicles and link membership.

use crate::sym;
use crate::util::*;
use traffic_sim::{LinkId, Simulation, VehicleId};

/// Exactly the vehicles in `here` exist, each listed once, on the link it is on,
/// in order.
fn accounted(s: &Simulation, links: &[LinkId], here: &[VehicleId]) {
    sym::check(s.iter_vehicles().count() == here.len(), "none-lost-or-made-up");
    let mut listed = 0;
    for l in links {
        let list = s.get_link(*l).verif_vehicles();
        listed += list.len();
        for v in list {
            sym::check(here.contains(v), "no-ghosts-on-links");
        }
        for w in list.windows(2) {
            if here.contains(&w[0]) & here.contains(&w[1]) {
                let (a, b) = (s.get_vehicle(w[0]).pos_mid(), s.get_vehicle(w[1]).pos_mid());
                sym::check(a <= b + 1e-6, "in-order");
            }
        }
    }
    sym::check(listed == here.len(), "listed-once");
    for v in here {
        sym::check(s.iter_vehicles().any(|x| x.id() == *v), "still-there");
        let Some(l) = s.iter_vehicles().find(|x| x.id() == *v).and_then(|x| x.link_id()) else { continue };
        let n = s.get_link(l).verif_vehicles().iter().filter(|x| *x == v).count();
        sym::check(n == 1, "listed-on-its-link");
    }
}

/// Those of the vehicles that still exist.
fn present(s: &Simulation, ids: &[VehicleId]) -> Vec<VehicleId> {
    ids.iter().copied().filter(|v| s.iter_vehicles().any(|x| x.id() == *v)).collect()
}

const MID: f64 = 60.0;

harnesses! {
    // Three vehicles, some of which pass onto the next link or leave in this step.
    fn h_c10_advance() {
        let mut s = Simulation::new();
        let l = chain(&mut s, MID, 2.0 * MID, [16.0, 16.0]);
        let on_second = sym::choice("on_second", 0, 3);
        let order = sym::choice("order", 0, 1);
        let mut ids = vec![];
        for k in 0..3 {
            let k = if order == 0 { k } else { 2 - k };
            ids.push(car_to(&mut s, &CAR, l[(k < on_second) as usize], l[1]));
        }
        if order == 1 {
            ids.reverse();
        }
        warm_up(&mut s);
        // accelerations stay as they are for the next step
        for k in 0..3 {
            s.verif_set_motion(ids[k], 50.0 - 18.0 * k as f64, 10.0);
        }
        s.step(0.05);
        for k in 0..3 {
            s.verif_set_motion(ids[k], 0.9 - 0.3 * k as f64, 10.0);
        }
        // the first is ahead
        let dt = sym::f64("dt", 0.0, 1.0);
        let mut ahead = (1e6, 0.0);
        let mut old = vec![];
        for k in 0..3 {
            let (p, v) = (sym::f64("p", 2.0, MID), sym::f64("v", 5.0, 40.0));
            let x = if k < on_second { MID + p } else { p };
            // no overtaking
            sym::assume((x + 1.0 < ahead.0) & (x + v * dt + 5.0 < ahead.0 + ahead.1 * dt));
            ahead = (x, v);
            s.verif_set_motion(ids[k], p, v);
            old.push((p, v));
        }
        s.step(dt);
        let here = present(&s, &ids);
        sym::note("here", here.len() as f64);
        accounted(&s, &l, &here);
        for k in 0..3 {
            let Some(v) = s.iter_vehicles().find(|x| x.id() == ids[k]) else {
                sym::check(k < on_second, "leaves-at-the-end-only");
                sym::check(old[k].0 + (old[k].1 + 2.0 * dt) * dt >= MID - TOL, "leaves-past-the-end-only");
                continue;
            };
            sym::note("pos", v.pos_mid());
            sym::check((v.pos_mid() >= -TOL) & (v.pos_mid() <= MID + TOL), "within-its-link");
            let moved = v.link_id() != Some(l[(k < on_second) as usize]);
            sym::check(!moved | ((k >= on_second) & (v.link_id() == Some(l[1]))), "next-link-only");
            let x = v.pos_mid() + if moved { MID } else { 0.0 };
            sym::check(close(x, old[k].0 + 0.5 * (old[k].1 + v.vel()) * dt), "not-displaced");
            sym::cover(moved, "moves-on");
        }
        sym::cover(here.len() < 2, "several-leave");
        sym::cover(s.get_link(l[1]).verif_vehicles().len() == 3, "three-on-the-second");
    }

    // Links shorter than a step takes the vehicle.
    fn h_c10_short() {
        let mut s = Simulation::new();
        let ends = [0.0, 40.0, 41.0, 43.0, 44.0, 80.0];
        let mut l = vec![];
        for k in 0..5 {
            l.push(line(&mut s, [ends[k], 0.0], [ends[k + 1], 0.0], 16.0));
            if k > 0 {
                s.add_link_connection(l[k - 1], l[k]);
            }
        }
        let dst = 5 - sym::choice("short_of_the_end", 1, 2);
        let car = car_to(&mut s, &CAR, l[0], l[dst]);
        let other = car_to(&mut s, &CAR, l[0], l[4]);
        warm_up(&mut s);
        s.step(0.05);
        // too far behind to matter
        s.verif_set_motion(other, 1.0, 1.0);
        let dt = sym::f64("dt", 0.0, 0.4);
        let (p, v) = (sym::f64("p", 33.0, 40.0), sym::f64("v", 5.0, 30.0));
        s.verif_set_motion(car, p, v);
        s.step(dt);
        let here = present(&s, &[car, other]);
        sym::note("here", here.len() as f64);
        accounted(&s, &l, &here);
        if here.contains(&car) {
            let (q, w) = motion(&s, car);
            let k = (0..5).find(|k| s.get_vehicle(car).link_id() == Some(l[*k])).unwrap();
            sym::check(close(ends[k] + q, p + 0.5 * (v + w) * dt), "not-displaced");
            sym::check((q >= -TOL) & (q <= ends[k + 1] - ends[k] + TOL), "within-its-link");
            sym::cover(k == 1, "on-the-first");
            sym::cover(k == 2, "on-the-second");
            sym::cover((k == 3) & (dst == 3), "on-the-last");
            sym::cover(k == 4, "past-them");
        } else {
            sym::check((dst == 3) & (p + (v + 2.0 * dt) * dt >= 44.0 - TOL), "leaves-past-the-end-only");
            sym::cover(true, "leaves");
        }
    }

    // Two links into one: both sort in with those already there.
    fn h_c10_merge() {
        let mut s = Simulation::new();
        let a = line(&mut s, [0.0, 0.0], [MID, 0.0], 16.0);
        let b = line(&mut s, [-5.0, 0.0], [MID, 0.0], 16.0);
        let c = line(&mut s, [MID, 0.0], [2.0 * MID, 0.0], 16.0);
        s.add_link_connection(a, c);
        s.add_link_connection(b, c);
        let (l, len) = ([a, b, c], s.get_link(b).length());
        let ids = l.map(|l| car_to(&mut s, &CAR, l, c));
        warm_up(&mut s);
        s.step(0.05);
        let dt = sym::f64("dt", 0.1, 1.0);
        let mut old = [0.0; 3];
        for k in 0..3 {
            let (p, v) = (sym::f64("p", 0.0, MID - 10.0), sym::f64("v", 5.0, 40.0));
            s.verif_set_motion(ids[k], p, v);
            old[k] = p;
        }
        s.step(dt);
        let here = present(&s, &ids);
        sym::note("here", here.len() as f64);
        accounted(&s, &l, &here);
        for k in 0..3 {
            let Some(v) = s.iter_vehicles().find(|x| x.id() == ids[k]) else {
                sym::check(k == 2, "leaves-at-the-end-only");
                continue;
            };
            let p = v.pos_mid();
            sym::note("pos", p);
            let moved = v.link_id() != Some(l[k]);
            sym::check(!moved | ((k < 2) & (v.link_id() == Some(c))), "next-link-only");
            sym::check(moved | (p >= old[k] - EPS), "not-displaced");
            sym::check(!moved | (p <= old[k] + 42.0 - if k == 0 { MID } else { len } + TOL), "not-displaced");
        }
        sym::cover(s.get_link(c).verif_vehicles() == [ids[0], ids[1], ids[2]], "in-one-order");
        sym::cover(s.get_link(c).verif_vehicles() == [ids[1], ids[0], ids[2]], "in-another-order");
        sym::cover(s.get_link(c).verif_vehicles() == [ids[2], ids[1], ids[0]], "reversed");
    }

    // Any calls in any order.
    fn h_c10_calls() {
        let mut s = Simulation::new();
        let l = [0.0, 3.5].map(|y| line(&mut s, [0.0, y], [200.0, y], 16.0));
        s.add_link_group(&l, 0);
        let mut ids = vec![];
        for k in 0..2 {
            let v = s.add_vehicle(&CAR, l[0]);
            s.verif_set_motion(v, 60.0 - 20.0 * k as f64, 10.0);
            ids.push(v);
        }
        let mut here = ids.clone();
        for _ in 0..4 {
            let k = sym::choice("vehicle", 0, 1);
            match sym::choice("call", 0, 3) {
                0 => s.step([0.05, 0.3][k]),
                1 => {
                    s.remove_vehicle(ids[k]);
                    here.retain(|v| *v != ids[k]);
                }
                2 if here.contains(&ids[k]) => {
                    let to = sym::choice("to", 0, 1);
                    let before = motion(&s, ids[k]).1;
                    s.do_lane_change(ids[k], l[to], 30.0);
                    sym::check(s.get_vehicle(ids[k]).link_id() == Some(l[to]), "on-the-new-lane");
                    sym::check((motion(&s, ids[k]).1 - before).abs() < EPS, "same-speed");
                }
                3 => {
                    let v = s.add_vehicle(&CAR, l[k]);
                    sym::check(!ids.contains(&v), "new-identity");
                    here.push(v);
                }
                _ => {}
            }
            accounted(&s, &l, &here);
        }
        s.step(sym::f64("dt", 0.0, 0.3));
        accounted(&s, &l, &here);
        sym::note("here", here.len() as f64);
        sym::cover(here.len() == 0, "none");
        sym::cover(here.len() == 6, "six");
    }
}
