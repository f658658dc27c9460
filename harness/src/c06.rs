//! C06: conflicting traffic light movements.

use crate::lights::*;
use crate::sym;
use crate::util::*;
use traffic_sim::{LightState, TrafficLight};

fn times(name: &str, hi: f64) -> f64 {
    sym::f64(name, 0.0, hi)
}

// Two movements which exclude each other, served in turn.
fn pair(steps: usize) {
    let red = [times("red0", 5.0), times("red1", 5.0)];
    let mut l = TrafficLight::new();
    l.add_movement(0b10, times("amber0", 5.0), red[0], std::iter::empty());
    l.add_movement(0b01, times("amber1", 5.0), red[1], std::iter::empty());
    l.add_phase(0b01, times("dur0", 60.0));
    l.add_phase(0b10, times("dur1", 60.0));
    let mut w = Watch::<2>::new(&l);
    for _ in 0..steps {
        w.step(&mut l, sym::f64("dt", 0.0, 30.0));
        sym::check((w.state[0] == LightState::Red) | (w.state[1] == LightState::Red), "conflict-free");
        w.clearance(0, 1, red[0]);
        w.clearance(1, 0, red[1]);
        sym::cover(w.state[1] == LightState::Green, "second-green");
    }
    sym::cover(w.state[0] == LightState::Green, "first-green-at-the-end");
}

// Three movements with arbitrary conflicts (symmetric or not) and phases.
fn masks(steps: usize) {
    let names = [["c01", "c02"], ["c10", "c12"], ["c20", "c21"]];
    let other = [[1, 2], [0, 2], [0, 1]];
    let mut conflict = [0u64; 3];
    for i in 0..3 {
        for k in 0..2 {
            conflict[i] |= (sym::choice(names[i][k], 0, 1) as u64) << other[i][k];
        }
    }
    let phases = [sym::choice("phase0", 0, 7) as u64, sym::choice("phase1", 0, 7) as u64];
    // no phase asks for two movements of which one excludes the other
    for p in phases {
        for i in 0..3 {
            sym::assume((p >> i) & 1 == 0 || p & conflict[i] == 0);
        }
    }
    sym::assume(phases[0] != phases[1]);
    let mut l = TrafficLight::new();
    for i in 0..3 {
        l.add_movement(conflict[i], 3.0, 1.0, std::iter::empty());
    }
    l.add_phase(phases[0], 10.0);
    l.add_phase(phases[1], 10.0);
    let mut w = Watch::<3>::new(&l);
    for _ in 0..steps {
        w.step(&mut l, sym::f64("dt", 0.0, 30.0));
        for i in 0..3 {
            for j in 0..3 {
                if conflict[i] >> j & 1 == 1 {
                    w.clearance(i, j, 1.0);
                    if conflict[j] >> i & 1 == 1 {
                        sym::check((w.state[i] == LightState::Red) | (w.state[j] == LightState::Red), "conflict-free");
                    }
                }
            }
        }
    }
    sym::check(true, "done");
    sym::cover(w.state[2] == LightState::Green, "third-green");
}

harnesses! {
    fn h_c06_pair() { pair(9) }
    fn h_c06_pair_deep() { pair(14) }
    fn h_c06_masks() { masks(6) }
    fn h_c06_masks_deep() { masks(8) }
}
