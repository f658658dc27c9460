//! Observation of a traffic light, shared by C06 and C07.

use crate::sym;
use crate::util::TOL;
use traffic_sim::{LightState, TrafficLight};

/// How long each movement has shown its current state, as seen from outside.
pub struct Watch<const N: usize> {
    pub state: [LightState; N],
    pub before: [LightState; N],
    /// Time in the current state up to now.
    pub since: [f64; N],
    /// Time in the previous step's state up to that step.
    pub since_before: [f64; N],
}

pub fn states<const N: usize>(l: &TrafficLight) -> [LightState; N] {
    let mut out = [LightState::Red; N];
    for (idx, s) in l.state() {
        out[idx] = s;
    }
    out
}

impl<const N: usize> Watch<N> {
    pub fn new(l: &TrafficLight) -> Self {
        let s = states(l);
        Self { state: s, before: s, since: [0.0; N], since_before: [0.0; N] }
    }

    pub fn step(&mut self, l: &mut TrafficLight, dt: f64) {
        l.step(dt);
        self.before = self.state;
        self.since_before = self.since;
        self.state = states(l);
        for i in 0..N {
            sym::note("state", self.state[i] as u8 as f64);
            self.since[i] = if self.state[i] != self.before[i] { dt } else { self.since[i] + dt };
        }
    }

    pub fn turned(&self, i: usize, s: LightState) -> bool {
        (self.state[i] == s) & (self.before[i] != s)
    }

    /// The clearance rule for a pair: `i` names `j` as conflicting.
    pub fn clearance(&self, i: usize, j: usize, red_time: f64) {
        if self.turned(j, LightState::Green) & (self.before[j] == LightState::Red) {
            sym::check(self.before[i] == LightState::Red, "conflicting-movement-red");
            sym::check(self.since_before[i] > red_time - TOL, "red-time-respected");
        }
    }
}
