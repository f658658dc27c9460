//! C25: what the simulation reports.

use crate::sym;
use crate::util::*;
use traffic_sim::{LightState, Simulation, TrafficLight, VehicleAttributes};

harnesses! {
    // Every way of connecting three links.
    fn h_c25_connections() {
        let mut s = Simulation::new();
        let l = [0.0, 20.0, 40.0].map(|x| line(&mut s, [x, 0.0], [x + 20.0, 0.0], 10.0));
        let mask = sym::choice("connected", 0, 63);
        let mut k = 0;
        for a in 0..3 {
            for b in 0..3 {
                if a != b {
                    if mask >> k & 1 == 1 {
                        s.add_link_connection(l[a], l[b]);
                    }
                    k += 1;
                }
            }
        }
        k = 0;
        let (mut outs, mut ins) = ([0; 3], [0; 3]);
        for a in 0..3 {
            for b in 0..3 {
                if a != b {
                    let yes = mask >> k & 1 == 1;
                    sym::check(s.get_link(l[a]).links_out().contains(&l[b]) == yes, "listed-as-successor");
                    sym::check(s.get_link(l[b]).links_in().contains(&l[a]) == yes, "listed-as-predecessor");
                    outs[a] += yes as usize;
                    ins[b] += yes as usize;
                    k += 1;
                }
            }
        }
        for a in 0..3 {
            let link = s.get_link(l[a]);
            sym::check((link.links_out().len() == outs[a]) & (link.links_in().len() == ins[a]), "nothing-else");
            sym::check(link.id() == l[a], "own-identity");
            sym::check(link.lane_changes().is_empty() & (link.reachable_lanes() == [l[a]]) & (link.reachable_from_lanes() == [l[a]]), "no-lanes");
            sym::note("outs", outs[a] as f64);
        }
        sym::check(s.iter_links().count() == 3, "all-links");
        sym::check(s.iter_links().zip(l).all(|(x, id)| x.id() == id), "each-link");
    }

    fn h_c25_links() {
        let mut s = Simulation::new();
        let len = [0.5, 3.0, 6.25, 40.0][sym::choice("len", 0, 3) as usize];
        let limit = sym::f64("limit", 1.0, 40.0);
        let a = line(&mut s, [0.0, 0.0], [len, 0.0], limit);
        let b = line(&mut s, [0.0, 9.0], [30.0, 9.0], 12.0);
        let link = s.get_link(a);
        sym::note("length", link.length());
        sym::check(close(link.length(), len), "length");
        sym::check(close(link.speed_limit(), limit), "limit");
        let cost = link.cost() as f64;
        sym::note("cost", cost);
        sym::check((cost * limit <= 10.0 * len + TOL) & ((cost + 1.0) * limit >= 10.0 * len - TOL), "cost");
        sym::check((s.get_link(b).cost() == 25) & close(s.get_link(b).speed_limit(), 12.0), "other-link");
        sym::cover(cost > 20.0, "slow");
    }

    fn h_c25_vehicles() {
        let mut s = Simulation::new();
        let l = chain(&mut s, 60.0, 120.0, [16.0, 16.0]);
        let car = VehicleAttributes {
            width: sym::f64("width", 0.5, 3.0),
            length: sym::f64("length", 1.0, 20.0),
            wheel_base: sym::f64("wheel_base", 0.5, 5.0),
            ..CAR
        };
        let v = s.add_vehicle(&car, l[0]);
        let w = s.add_vehicle(&CAR, l[1]);
        let at = |s: &Simulation| {
            let x = s.get_vehicle(v);
            sym::check(x.id() == v, "own-identity");
            sym::check(close(x.width(), car.width) & close(x.length(), car.length), "size");
            sym::check(close(x.pos_front(), x.pos_mid() + 0.5 * car.length), "front");
            sym::check(close(x.pos_rear(), x.pos_mid() - 0.5 * car.length), "rear");
            sym::check(close(s.get_vehicle(w).width(), 2.0) & close(s.get_vehicle(w).length(), 5.0), "size-of-the-other");
            sym::note("front", x.pos_front());
        };
        at(&s);
        sym::check((s.get_vehicle(v).pos_mid() == 0.0) & (s.get_vehicle(v).vel() == 0.0), "starts-standing-at-the-start");
        sym::check((s.get_vehicle(v).link_id() == Some(l[0])) & (s.get_vehicle(w).link_id() == Some(l[1])), "starts-on-its-link");
        sym::check(!s.get_vehicle_frozen(v), "starts-unfrozen");
        s.set_vehicle_destination(v, l[1]);
        sym::check(s.get_vehicle(v).destination() == l[1], "destination");
        warm_up(&mut s);
        let (p, q) = (sym::f64("p", 0.0, 60.0), sym::f64("v", 0.0, 20.0));
        s.verif_set_motion(v, p, q);
        s.step(sym::f64("dt", 0.0, 0.5));
        at(&s);
        sym::check(s.get_vehicle(v).destination() == l[1], "destination");
        sym::check(s.iter_vehicles().map(|x| x.id()).eq([v, w]), "each-vehicle");
        let moved = s.get_vehicle(v).link_id() == Some(l[1]);
        sym::cover(moved, "moves-on");
    }

    // Frames are counted whatever their length, and lights run with the simulation.
    fn h_c25_lights() {
        let mut s = Simulation::new();
        let l = chain(&mut s, 60.0, 120.0, [16.0, 16.0]);
        let mut ids = vec![];
        for k in 0..2 {
            let mut light = TrafficLight::new();
            light.add_movement(0, 3.0, 1.0, std::iter::once(l[k]));
            light.add_phase(1, 5.0);
            light.add_phase(0, 5.0);
            sym::check(light.state().count() == 1, "one-movement");
            if k == 1 {
                light.add_movement(0, 3.0, 1.0, std::iter::empty());
            }
            ids.push(s.add_traffic_light(light));
        }
        sym::check(s.frame() == 0, "no-frames-yet");
        let mut at = 0.0;
        for k in 1..4 {
            let dt = sym::f64("dt", 0.0, 4.0);
            s.step(dt);
            at += dt;
            sym::check(s.frame() == k, "frames");
        }
        sym::note("at", at);
        sym::check(s.iter_lights().map(|x| x.0).eq(ids.iter().copied()), "each-light");
        for (k, (_, light)) in s.iter_lights().enumerate() {
            sym::check(light.state().count() == k + 1, "all-movements");
            for (n, (i, state)) in light.state().enumerate() {
                sym::check(n == i, "in-order");
                sym::check((n == 0) | matches!(state, LightState::Red), "never-asked-for");
                sym::cover((n == 0) & matches!(state, LightState::Green), "green");
                sym::cover((n == 0) & matches!(state, LightState::Amber), "amber");
            }
        }
    }
}
