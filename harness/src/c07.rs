//! C07: sequence and timing of traffic lights.

use crate::lights::*;
use crate::sym;
use crate::util::*;
use slotmap::KeyData;
use traffic_sim::{LightState, LinkId, TrafficControl, TrafficLight};
use LightState::*;

/// The changes a movement may show in one step, and how long amber lasts.
fn sequence<const N: usize>(w: &Watch<N>, amber: &[f64; N]) {
    for i in 0..N {
        let (b, s) = (w.before[i], w.state[i]);
        let ok = (b == s) | ((b == Green) & (s == Amber)) | ((b == Amber) & (s != Amber)) | ((b == Red) & (s == Green));
        sym::check(ok, "order-of-colours");
        if b == Amber {
            if s == Red {
                sym::check(w.since_before[i] >= amber[i] - TOL, "amber-long-enough");
                sym::cover(true, "amber-ends");
            }
            if s == Amber {
                sym::check(w.since_before[i] < amber[i] + TOL, "amber-not-too-long");
                sym::cover(true, "amber-goes-on");
            }
        }
    }
}

fn link(n: u64) -> LinkId {
    KeyData::from_ffi((1 << 32) | n).into()
}

// A phase with two movements ends when both have been green for its duration.
fn joint(steps: usize) {
    let dur = sym::f64("dur", 1.0, 60.0);
    let amber = [sym::f64("amber0", 0.0, 5.0), sym::f64("amber1", 0.0, 5.0), sym::f64("amber2", 0.0, 5.0)];
    let mut l = TrafficLight::new();
    l.add_movement(0b100, amber[0], sym::f64("red0", 0.0, 5.0), std::iter::empty());
    l.add_movement(0b000, amber[1], 0.0, std::iter::empty());
    l.add_movement(0b001, amber[2], sym::f64("red2", 0.0, 5.0), std::iter::empty());
    l.add_phase(0b110, 5.0);
    l.add_phase(0b011, dur);
    let mut w = Watch::<3>::new(&l);
    let mut second = false;
    for _ in 0..steps {
        w.step(&mut l, sym::f64("dt", 0.0, 80.0));
        sequence(&w, &amber);
        second |= w.turned(0, Green);
        if second & (w.before[0] == Green) {
            let b = w.before[1] == Green;
            if w.state[0] == Amber {
                sym::check(b & (w.since_before[0] >= dur - TOL) & (w.since_before[1] >= dur - TOL), "phase-lasts-its-duration");
                // the movement of the next phase stays green
                sym::check(w.state[1] == Green, "shared-movement-stays-green");
                sym::cover(true, "second-phase-ends");
                second = false;
            } else {
                sym::check(!b | (w.since_before[0] < dur + TOL) | (w.since_before[1] < dur + TOL), "phase-ends-in-time");
            }
        }
    }
}

harnesses! {
    // Three phases of one movement each: served in turn, each for its duration.
    fn h_c07_phases() {
        let dur = [sym::f64("dur0", 1.0, 60.0), sym::f64("dur1", 1.0, 60.0), sym::f64("dur2", 1.0, 60.0)];
        let amber = [sym::f64("amber0", 0.0, 5.0), sym::f64("amber1", 0.0, 5.0), 0.0];
        let mut l = TrafficLight::new();
        for i in 0..3 {
            l.add_movement(0b111 & !(1 << i), amber[i], 1.0, std::iter::empty());
            l.add_phase(1 << i, dur[i]);
        }
        let mut w = Watch::<3>::new(&l);
        let mut next = 0;
        for _ in 0..9 {
            w.step(&mut l, sym::f64("dt", 0.0, 80.0));
            sequence(&w, &amber);
            for i in 0..3 {
                if w.turned(i, Green) {
                    sym::check(i == next, "phases-in-order");
                    next = (i + 1) % 3;
                }
                if w.before[i] == Green {
                    if w.state[i] == Green {
                        sym::check(w.since_before[i] < dur[i] + TOL, "phase-ends-in-time");
                    } else {
                        sym::check(w.since_before[i] >= dur[i] - TOL, "phase-lasts-its-duration");
                    }
                }
            }
            sym::cover(w.turned(2, Green), "third-phase");
        }
        sym::cover(w.state[0] == Green, "wraps-around");
    }

    fn h_c07_joint() { joint(7) }
    fn h_c07_joint_deep() { joint(10) }

    // A movement asked for again turns green from amber; reds serve at once.
    fn h_c07_return() {
        let amber = [sym::f64("amber0", 0.0, 5.0), sym::f64("amber1", 0.0, 5.0)];
        let mut l = TrafficLight::new();
        l.add_movement(0, amber[0], 1.0, std::iter::empty());
        l.add_movement(0, amber[1], 1.0, std::iter::empty());
        l.add_phase(0b01, sym::f64("dur0", 0.0, 10.0));
        l.add_phase(0b10, sym::f64("dur1", 0.0, 10.0));
        let mut w = Watch::<2>::new(&l);
        for _ in 0..8 {
            w.step(&mut l, sym::f64("dt", 0.0, 20.0));
            sequence(&w, &amber);
            // nothing conflicts, so some movement is always served
            sym::check((w.state[0] == Green) | (w.state[1] == Green), "serves-the-phase");
            sym::cover((w.before[0] == Amber) & (w.state[0] == Green), "back-to-green");
        }
    }

    // The links of a movement are open exactly while it is green.
    fn h_c07_links() {
        let mut l = TrafficLight::new();
        let movement = [0usize, 0, 1, 2];
        l.add_movement(0b010, 3.0, 1.0, [link(1), link(2)].into_iter());
        l.add_movement(0b001, 3.0, 1.0, [link(3)].into_iter());
        l.add_movement(0b000, 3.0, 1.0, [link(4)].into_iter());
        l.add_phase(0b001, 10.0);
        l.add_phase(0b110, 10.0);
        for _ in 0..8 {
            l.step(sym::f64("dt", 0.0, 20.0));
            let s = states::<3>(&l);
            let mut n = 0;
            for (id, control) in l.get_states() {
                let green = s[movement[n]] == Green;
                sym::check(id == link(n as u64 + 1), "links-in-order");
                sym::check(matches!(control, TrafficControl::Open) == green, "open-if-green");
                sym::check(matches!(control, TrafficControl::Closed) != green, "closed-unless-green");
                n += 1;
            }
            sym::check(n == 4, "all-links");
            sym::cover(s[1] == Amber, "amber");
        }
    }

    fn h_c07_no_phases() {
        let mut l = TrafficLight::new();
        l.add_movement(0b10, 3.0, 1.0, std::iter::empty());
        l.add_movement(0b01, 3.0, 1.0, std::iter::empty());
        for _ in 0..3 {
            l.step(sym::f64("dt", 0.0, 20.0));
            let s = states::<2>(&l);
            sym::note("state", s[0] as u8 as f64);
            sym::check((s[0] == Red) & (s[1] == Red), "all-red");
        }
        TrafficLight::new().step(1.0);
    }
}
