//! C09: give-way and stop controls.

use crate::sym;
use crate::util::*;
use traffic_sim::{LinkId, Simulation, TrafficControl, VehicleId};

const LIMIT: f64 = 16.0;

/// Where the stop lines are on the approaches.
const LINE: f64 = 90.0;

/// The time that has to pass between two vehicles, in s.
const BUFFER: f64 = 0.5;

/// Where the crossing area starts and ends on either link, and the uncertainty.
const AREA: [f64; 2] = [8.0, 12.0];
const SLACK: f64 = 0.3;

/// An approach from the west and one from the south, each leading over a
/// stop line onto a link that crosses the other one's after 10 m. A vehicle on either.
struct Crossing {
    s: Simulation,
    link: [LinkId; 2],
    veh: [VehicleId; 2],
}

fn crossing() -> Crossing {
    let mut s = Simulation::new();
    let approach = [line(&mut s, [-100.0, 0.0], [-10.0, 0.0], LIMIT), line(&mut s, [0.0, -100.0], [0.0, -10.0], LIMIT)];
    let link = [line(&mut s, [-10.0, 0.0], [60.0, 0.0], LIMIT), line(&mut s, [0.0, -10.0], [0.0, 60.0], LIMIT)];
    for i in 0..2 {
        s.add_link_connection(approach[i], link[i]);
    }
    s.add_link_convergance(link[0], link[1]);
    let veh = [0, 1].map(|i| car_to(&mut s, &CAR, approach[i], link[i]));
    Crossing { s, link, veh }
}

fn give_way(priority: i8) -> TrafficControl {
    TrafficControl::Yield { distance: 20.0, must_stop: false, priority }
}

/// Whether a vehicle going `v0` held on for the stop line `dist` ahead of it or
/// went on, judged by its speed a tenth of a second later.
fn goes(v0: f64, v: f64) -> bool {
    close(v, next_speed(v0, free(&CAR, v0, LIMIT), 0.1))
}

fn waits(v0: f64, v: f64, dist: f64) -> bool {
    let acc = min(free(&CAR, v0, LIMIT), idm(&CAR, dist, v0, 0.0));
    // the driver model has a step at two metres
    ((dist - 2.0).abs() < 0.01) | close(v, next_speed(v0, acc, 0.1))
}

/// When the yielding vehicle would have left the area, with the buffer, and when
/// the other one would reach it: at the earliest and at the latest.
fn times(s: &Simulation, veh: [VehicleId; 2]) -> [[f64; 2]; 2] {
    let [a, b] = veh.map(|v| s.get_vehicle(v));
    [
        [-SLACK, SLACK].map(|d| a.min_reach_time(LINE + AREA[1] + d, LIMIT) + BUFFER),
        [-SLACK, SLACK].map(|d| b.min_reach_time(LINE + AREA[0] + d, LIMIT)),
    ]
}

/// The claims about a yielding vehicle going `va` with the line `dist` ahead.
fn gap_accepted([mine, theirs]: [[f64; 2]; 2], va: f64, v: f64, dist: f64) {
    sym::note("vel", v);
    sym::check((theirs[1] > mine[0]) | waits(va, v, dist), "waits-for-traffic");
    sym::check((theirs[0] < mine[1]) | goes(va, v), "goes-in-a-gap");
    sym::cover(theirs[1] < mine[0], "traffic");
    sym::cover(theirs[0] > mine[1], "gap");
}

harnesses! {
    // Nobody else is there: when does the vehicle go?
    fn h_c09_distance() {
        let Crossing { mut s, link, veh } = crossing();
        s.remove_vehicle(veh[1]);
        warm_up(&mut s);
        let distance = sym::f64("distance", 0.0, 40.0);
        s.set_link_control(link[0], TrafficControl::Yield { distance, must_stop: false, priority: 0 });
        let (p1, v1) = (sym::f64("p1", 40.0, 87.0), sym::f64("v1", 0.0, 16.0));
        s.verif_set_motion(veh[0], p1, v1);
        s.step(0.1);
        let v = s.get_vehicle(veh[0]).vel();
        sym::check(waits(v1, v, LINE - p1 - 2.5), "waits-at-first");
        let (p2, v2) = (60.0, 5.0);
        s.verif_set_motion(veh[0], p2, v2);
        s.step(0.1);
        let v = s.get_vehicle(veh[0]).vel();
        sym::note("vel", v);
        let near = LINE - p1 - 2.5;
        sym::check((near < distance + TOL) | waits(v2, v, LINE - p2 - 2.5), "waits-if-too-far");
        sym::check((near > distance - TOL) | goes(v2, v), "goes-if-near-enough");
        sym::cover(near < distance, "near");
        sym::cover(near > distance, "far");
    }

    // At a stop sign.
    fn h_c09_stop() {
        let Crossing { mut s, link, veh } = crossing();
        s.remove_vehicle(veh[1]);
        warm_up(&mut s);
        s.set_link_control(link[0], TrafficControl::Yield { distance: 10.0, must_stop: true, priority: 0 });
        let (p1, v1) = (sym::f64("p1", 40.0, 87.0), sym::f64("v1", 0.0, 16.0));
        s.verif_set_motion(veh[0], p1, v1);
        s.step(0.1);
        let (p2, v2) = (60.0, 5.0);
        s.verif_set_motion(veh[0], p2, v2);
        s.step(0.1);
        let v = s.get_vehicle(veh[0]).vel();
        sym::note("vel", v);
        let ready = (LINE - p1 - 2.5 < 9.999) & (v1 < 0.0999);
        let unready = (LINE - p1 - 2.5 > 10.001) | (v1 > 0.1001);
        sym::check(!unready | waits(v2, v, LINE - p2 - 2.5), "waits-until-stopped");
        sym::check(!ready | goes(v2, v), "goes-after-stopping");
        sym::cover(ready, "stopped");
        sym::cover(unready, "rolling");
    }

    // Traffic on the main road.
    fn h_c09_gap() {
        let Crossing { mut s, link, veh } = crossing();
        warm_up(&mut s);
        s.set_link_control(link[0], give_way(0));
        s.verif_set_motion(veh[0], 85.0, 2.0);
        s.verif_set_motion(veh[1], 10.0, 2.0);
        s.step(0.15);
        let (pa, va) = (sym::f64("pa", 80.0, 87.0), 4.0 * sym::choice("va", 0, 2) as f64);
        let (pb, vb) = (sym::f64("pb", 20.0, 90.0), 4.0 * sym::choice("vb", 0, 3) as f64);
        s.verif_set_motion(veh[0], pa, va);
        s.verif_set_motion(veh[1], pb, vb);
        let times = times(&s, veh);
        s.step(0.1);
        gap_accepted(times, va, s.get_vehicle(veh[0]).vel(), LINE - pa - 2.5);
    }

    // The same, with any speed of the other vehicle, from a few places.
    fn h_c09_speeds() {
        let Crossing { mut s, link, veh } = crossing();
        warm_up(&mut s);
        s.set_link_control(link[0], give_way(0));
        s.verif_set_motion(veh[0], 85.0, 2.0);
        s.verif_set_motion(veh[1], 10.0, 2.0);
        s.step(0.15);
        let (pa, va) = (86.0, 2.5 * sym::choice("va", 0, 3) as f64);
        let (pb, vb) = (20.0 + 15.0 * sym::choice("pb", 0, 4) as f64, sym::f64("vb", 0.0, 16.0));
        s.verif_set_motion(veh[0], pa, va);
        s.verif_set_motion(veh[1], pb, vb);
        let times = times(&s, veh);
        s.step(0.1);
        gap_accepted(times, va, s.get_vehicle(veh[0]).vel(), LINE - pa - 2.5);
    }

    // Traffic already on the crossing link.
    fn h_c09_crossing() {
        let Crossing { mut s, link, veh } = crossing();
        warm_up(&mut s);
        s.verif_set_motion(veh[0], 40.0, 0.0);
        s.verif_set_motion(veh[1], 89.0, 10.0);
        s.step(0.15);
        s.step(0.15);
        sym::check(s.get_vehicle(veh[1]).link_id() == Some(link[1]), "on-the-crossing-link");
        s.set_link_control(link[0], give_way(0));
        // whatever the control of the crossing link, the vehicle has entered it
        match sym::choice("control", 0, 3) {
            0 => {}
            1 => s.set_link_control(link[1], TrafficControl::Closed),
            2 => s.set_link_control(link[1], give_way(-1)),
            _ => s.set_link_control(link[1], give_way(1)),
        }
        s.verif_set_motion(veh[0], 85.0, 2.0);
        s.step(0.15);
        let va = 4.0;
        let (pb, vb) = (sym::f64("pb", 0.0, 50.0), sym::f64("vb", 0.0, 16.0));
        s.verif_set_motion(veh[0], 86.0, va);
        s.verif_set_motion(veh[1], pb, vb);
        let [a, b] = veh.map(|v| s.get_vehicle(v));
        let mine = [-SLACK, SLACK].map(|d| a.min_reach_time(LINE + AREA[1] + d, LIMIT) + BUFFER);
        let theirs = [-SLACK, SLACK].map(|d| b.min_reach_time(AREA[0] + d, LIMIT));
        let gone = [pb - 2.5 > AREA[1] + SLACK, pb - 2.5 < AREA[1] - SLACK];
        s.step(0.1);
        let v = s.get_vehicle(veh[0]).vel();
        sym::note("vel", v);
        sym::check(!gone[0] | goes(va, v), "goes-after-traffic");
        sym::check(!gone[1] | (theirs[1] > mine[0]) | waits(va, v, 1.5), "waits-for-traffic");
        sym::cover(gone[0], "gone");
        sym::cover(gone[1] & (theirs[1] < mine[0]), "there");
    }

    // Two yielding vehicles, the other one not in the queue yet.
    fn h_c09_priority() {
        let Crossing { mut s, link, veh } = crossing();
        warm_up(&mut s);
        let mine = sym::choice("mine", 0, 4) as i8 - 2;
        let theirs = sym::choice("theirs", 0, 5) as i8 - 2;
        s.set_link_control(link[0], give_way(mine));
        if theirs > 2 {
            s.set_link_control(link[1], TrafficControl::Closed);
        } else {
            s.set_link_control(link[1], TrafficControl::Yield { distance: 5.0, must_stop: false, priority: theirs });
        }
        s.verif_set_motion(veh[0], 85.0, 2.0);
        s.verif_set_motion(veh[1], 10.0, 2.0);
        s.step(0.15);
        let va = sym::f64("va", 0.0, 4.0);
        let (pb, vb) = (sym::f64("pb", 60.0, 82.0), sym::f64("vb", 8.0, 16.0));
        s.verif_set_motion(veh[0], 82.0, va);
        s.verif_set_motion(veh[1], pb, vb);
        s.step(0.1);
        let v = s.get_vehicle(veh[0]).vel();
        sym::note("vel", v);
        if (theirs > 2) | (mine >= theirs) {
            sym::check(goes(va, v), "goes-before-lower-priority");
        } else {
            sym::check(waits(va, v, LINE - 82.0 - 2.5), "waits-for-higher-priority");
        }
        sym::check(waits(vb, s.get_vehicle(veh[1]).vel(), LINE - pb - 2.5), "other-waits");
    }

    // Two vehicles of equal or different priority in the queue.
    fn h_c09_queue() {
        let Crossing { mut s, link, veh } = crossing();
        warm_up(&mut s);
        let i = sym::choice("first", 0, 1) as usize;
        let j = 1 - i;
        let [first, second] = [sym::choice("first_priority", 0, 2) as i8, sym::choice("second_priority", 0, 2) as i8];
        let [slow, fast] = [first < second, first > second];
        s.set_link_control(link[i], give_way(first));
        s.set_link_control(link[j], give_way(second));
        s.verif_set_motion(veh[i], 85.0, 2.0);
        s.verif_set_motion(veh[j], 10.0, 2.0);
        s.step(0.15);
        // held back so that the other one joins the queue
        s.set_link_control(link[i], TrafficControl::Closed);
        s.set_link_control(link[j], TrafficControl::Yield { distance: 50.0, must_stop: false, priority: second });
        s.verif_set_motion(veh[i], 85.0, 2.0);
        s.verif_set_motion(veh[j], 80.0, 2.0);
        s.step(0.15);
        s.set_link_control(link[i], give_way(first));
        let (v1, v2) = (sym::f64("v1", 0.0, 4.0), sym::f64("v2", 0.0, 4.0));
        let p = sym::f64("p", 82.0, 87.0);
        s.verif_set_motion(veh[i], p, v1);
        s.verif_set_motion(veh[j], 82.0, v2);
        let second_clear = times(&s, [veh[j], veh[i]]);
        let first_clear = times(&s, [veh[i], veh[j]]);
        let room = |[mine, theirs]: [[f64; 2]; 2]| theirs[1] > mine[0];
        s.step(0.1);
        let [v, w] = [i, j].map(|k| s.get_vehicle(veh[k]).vel());
        sym::note("v1", v);
        sym::note("v2", w);
        if slow {
            sym::check(room(first_clear) | waits(v1, v, LINE - p - 2.5), "waits-for-higher-priority");
            sym::check(goes(v2, w), "higher-priority-goes");
        } else {
            sym::check(goes(v1, v), "first-goes");
            sym::check(room(second_clear) | waits(v2, w, LINE - 82.0 - 2.5), "second-waits");
        }
        sym::cover(fast, "first-has-priority");
        sym::cover(slow, "second-has-priority");
    }

    // Links of the main road with different speed limits.
    fn h_c09_limits() {
        let mut s = Simulation::new();
        let limits = [[LIMIT, 8.0], [8.0, LIMIT], [12.0, LIMIT]][sym::choice("limits", 0, 2) as usize];
        let approach = [line(&mut s, [-100.0, 0.0], [-10.0, 0.0], LIMIT), line(&mut s, [0.0, -100.0], [0.0, -10.0], limits[0])];
        let link = [line(&mut s, [-10.0, 0.0], [60.0, 0.0], LIMIT), line(&mut s, [0.0, -10.0], [0.0, 60.0], limits[1])];
        for i in 0..2 {
            s.add_link_connection(approach[i], link[i]);
        }
        s.add_link_convergance(link[0], link[1]);
        let veh = [0, 1].map(|i| car_to(&mut s, &CAR, approach[i], link[i]));
        warm_up(&mut s);
        s.set_link_control(link[0], give_way(0));
        s.verif_set_motion(veh[0], 85.0, 2.0);
        s.verif_set_motion(veh[1], 10.0, 2.0);
        s.step(0.15);
        let (pa, va) = (86.0, 2.5 * sym::choice("va", 0, 2) as f64);
        let (pb, vb) = (sym::f64("pb", 20.0, 90.0), 4.0 * sym::choice("vb", 1, 3) as f64);
        s.verif_set_motion(veh[0], pa, va);
        s.verif_set_motion(veh[1], pb, vb);
        let times = times(&s, veh);
        s.step(0.1);
        gap_accepted(times, va, s.get_vehicle(veh[0]).vel(), LINE - pa - 2.5);
    }

    // The main road in several pieces, fed by two links, with a turn-off before the
    // crossing. Only vehicles that are going to cross matter.
    fn h_c09_routes() {
        let mut s = Simulation::new();
        let approach = line(&mut s, [-100.0, 0.0], [-10.0, 0.0], LIMIT);
        let link = line(&mut s, [-10.0, 0.0], [60.0, 0.0], LIMIT);
        let cross = line(&mut s, [0.0, -10.0], [0.0, 60.0], LIMIT);
        let main = line(&mut s, [0.0, -30.0], [0.0, -10.0], LIMIT);
        let feed = [line(&mut s, [0.0, -100.0], [0.0, -30.0], LIMIT), line(&mut s, [-70.0, -30.0], [0.0, -30.0], LIMIT)];
        let off = line(&mut s, [0.0, -10.0], [60.0, -10.0], LIMIT);
        s.add_link_connection(approach, link);
        s.add_link_connection(main, cross);
        s.add_link_connection(main, off);
        s.add_link_connection(feed[0], main);
        s.add_link_connection(feed[1], main);
        s.add_link_convergance(link, cross);
        let place = sym::choice("place", 0, 2) as usize;
        // on the way over the crossing, turning off, or leaving the network before it
        let way = sym::choice("way", 0, 2);
        let turns = way > 0;
        let follower = sym::choice("follower", 0, 1) == 1;
        let start = [feed[0], feed[1], main][place];
        let me = car_to(&mut s, &CAR, approach, link);
        // the one behind is always going to cross
        let behind = car_to(&mut s, &CAR, feed[0], cross);
        let other = car_to(&mut s, &CAR, start, [cross, off, main][way]);
        warm_up(&mut s);
        s.set_link_control(link, give_way(0));
        s.verif_set_motion(me, 85.0, 2.0);
        s.verif_set_motion(behind, 6.0, 0.0);
        s.verif_set_motion(other, 14.0, 0.0);
        s.step(0.15);
        let va = 4.0;
        let pb = if place == 2 { sym::f64("pb", 14.0, 17.5) } else { sym::f64("pb_before", 20.0, 67.5) };
        let vb = if follower { 8.0 } else { 4.0 * sym::choice("vb", 1, 3) as f64 };
        // how far the vehicle behind has come
        let pc = match (follower, place) {
            (false, _) => 6.0,
            (true, 2) => 65.0,
            (true, _) => pb - 9.0,
        };
        let vc = match (follower, turns) {
            (false, _) => 0.0,
            (true, false) => 8.0,
            (true, true) => 12.0,
        };
        s.verif_set_motion(me, 86.0, va);
        s.verif_set_motion(behind, pc, vc);
        s.verif_set_motion(other, pb, vb);
        let mine = [-SLACK, SLACK].map(|d| s.get_vehicle(me).min_reach_time(LINE + AREA[1] + d, LIMIT) + BUFFER);
        let ahead = if place == 2 { 20.0 } else { 90.0 };
        let reach = |v, len: f64| [-SLACK, SLACK].map(|d| s.get_vehicle(v).min_reach_time(len + AREA[0] + d, LIMIT));
        let (first, second) = (reach(other, ahead), reach(behind, 90.0));
        s.step(0.1);
        let v = s.get_vehicle(me).vel();
        sym::note("vel", v);
        let traffic = (!turns & (first[1] < mine[0])) | (second[1] < mine[0]);
        let gap = (turns | (first[0] > mine[1])) & (second[0] > mine[1]);
        sym::check(!traffic | waits(va, v, 1.5), "waits-for-traffic");
        sym::check(!gap | goes(va, v), "goes-in-a-gap");
        sym::cover(traffic, "traffic");
        sym::cover(gap, "gap");
        sym::cover(turns & traffic, "second-in-the-way");
    }

    // A main road with the crossing far behind the end of a link.
    fn h_c09_far() {
        let mut s = Simulation::new();
        let far = 10.0 * sym::choice("far", 3, 5) as f64;
        let approach = [line(&mut s, [-100.0, 0.0], [-10.0, 0.0], LIMIT), line(&mut s, [0.0, -90.0 - far], [0.0, -far], LIMIT)];
        let link = [line(&mut s, [-10.0, 0.0], [60.0, 0.0], LIMIT), line(&mut s, [0.0, -far], [0.0, 60.0], LIMIT)];
        for i in 0..2 {
            s.add_link_connection(approach[i], link[i]);
        }
        s.add_link_convergance(link[0], link[1]);
        let veh = [0, 1].map(|i| car_to(&mut s, &CAR, approach[i], link[i]));
        warm_up(&mut s);
        s.set_link_control(link[0], give_way(0));
        s.verif_set_motion(veh[0], 85.0, 2.0);
        s.verif_set_motion(veh[1], 10.0, 2.0);
        s.step(0.15);
        let (pa, va) = (sym::f64("pa", 82.0, 87.0), sym::f64("va", 0.0, 8.0));
        s.verif_set_motion(veh[0], pa, va);
        s.verif_set_motion(veh[1], 89.0, LIMIT);
        let [a, b] = veh.map(|v| s.get_vehicle(v));
        let times = [
            [-SLACK, SLACK].map(|d| a.min_reach_time(LINE + AREA[1] + d, LIMIT) + BUFFER),
            [-SLACK, SLACK].map(|d| b.min_reach_time(LINE + far - 2.0 + d, LIMIT)),
        ];
        s.step(0.1);
        gap_accepted(times, va, s.get_vehicle(veh[0]).vel(), LINE - pa - 2.5);
    }

    // A second line after the first one: the vehicle has to wait its turn and to stop again.
    fn h_c09_second() {
        let mut s = Simulation::new();
        let a = line(&mut s, [0.0, 0.0], [90.0, 0.0], LIMIT);
        let b = line(&mut s, [90.0, 0.0], [130.0, 0.0], LIMIT);
        let c = line(&mut s, [130.0, 0.0], [200.0, 0.0], LIMIT);
        s.add_link_connection(a, b);
        s.add_link_connection(b, c);
        let v = car_to(&mut s, &CAR, a, c);
        warm_up(&mut s);
        let must_stop = sym::choice("must_stop", 0, 1) == 1;
        s.set_link_control(b, give_way(0));
        s.set_link_control(c, TrafficControl::Yield { distance: 20.0, must_stop, priority: 0 });
        s.verif_set_motion(v, 86.0, 8.0);
        for _ in 0..4 {
            s.step(0.15);
        }
        sym::check(s.get_vehicle(v).link_id() == Some(b), "over-the-first-line");
        let (p1, v1) = (sym::f64("p1", 10.0, 37.0), sym::f64("v1", 0.2, 8.0));
        s.verif_set_motion(v, p1, v1);
        s.step(0.1);
        let vel = s.get_vehicle(v).vel();
        sym::note("vel", vel);
        sym::check(waits(v1, vel, 40.0 - p1 - 2.5), "waits-at-the-second-line");
        s.verif_set_motion(v, 30.0, 5.0);
        s.step(0.1);
        let vel = s.get_vehicle(v).vel();
        sym::note("vel", vel);
        let near = 40.0 - p1 - 2.5 < 20.0 - TOL;
        sym::check(!must_stop | waits(5.0, vel, 7.5), "has-to-stop");
        sym::check(must_stop | !near | goes(5.0, vel), "goes-after-its-turn");
        sym::cover(near, "near");
    }
}
