//! C11: routes and destinations.

use crate::sym;
use crate::util::*;
use traffic_sim::{LinkId, Simulation, VehicleId};

const LEN: f64 = 60.0;

/// Length of the lanes in a group.
const LANE: f64 = 120.0;

/// Links with connections and permitted lane changes between them.
struct Network {
    s: Simulation,
    links: Vec<LinkId>,
    edge: [[bool; 4]; 4],
    lane: [[bool; 4]; 4],
    reach: [[bool; 4]; 4],
}

impl Network {
    fn new(s: Simulation, links: Vec<LinkId>, edge: [[bool; 4]; 4]) -> Self {
        let mut n = Self { s, links, edge, lane: [[false; 4]; 4], reach: edge };
        n.close();
        n
    }

    /// Arbitrary connections.
    fn any(n: usize) -> Self {
        Self::drawn(n, &mut |i, _| sym::bool(["e0", "e1", "e2", "e3"][i]))
    }

    fn drawn(n: usize, connected: &mut dyn FnMut(usize, usize) -> bool) -> Self {
        let mut s = Simulation::new();
        let links: Vec<LinkId> = (0..n).map(|i| line(&mut s, [0.0, 9.0 * i as f64], [LEN, 9.0 * i as f64], 16.0)).collect();
        let mut edge = [[false; 4]; 4];
        for i in 0..n {
            for j in 0..n {
                if i != j && connected(i, j) {
                    s.add_link_connection(links[i], links[j]);
                    edge[i][j] = true;
                }
            }
        }
        Self::new(s, links, edge)
    }

    /// Works out which links can be reached from which.
    fn close(&mut self) {
        let r = &mut self.reach;
        for i in 0..4 {
            for j in 0..4 {
                r[i][j] = (i == j) | self.edge[i][j] | self.lane[i][j];
            }
        }
        for k in 0..4 {
            for i in 0..4 {
                for j in 0..4 {
                    r[i][j] |= r[i][k] & r[k][j];
                }
            }
        }
    }

    /// A vehicle on link `i`, on its way to `dst`.
    fn start(&mut self, i: usize, dst: usize) -> VehicleId {
        sym::note("network", dst as f64);
        car_to(&mut self.s, &CAR, self.links[i], self.links[dst])
    }

    fn length(&self, i: usize) -> f64 {
        self.s.get_link(self.links[i]).length()
    }

    /// The index of the link the vehicle is on, or none if it has left.
    fn place(&self, v: VehicleId) -> Option<usize> {
        let v = self.s.iter_vehicles().find(|x| x.id() == v)?;
        self.links.iter().position(|l| Some(*l) == v.link_id())
    }

    /// Settles on a route, and on a lane of the group.
    fn settle(&mut self, v: VehicleId, mut i: usize, dst: usize) -> usize {
        self.s.verif_set_motion(v, 5.0, 10.0);
        let steps = if self.length(i) > LEN { 24 } else { 2 };
        for _ in 0..steps {
            i = self.step(v, i, dst);
        }
        i
    }

    /// A step within link `i` or to a lane next to it.
    fn step(&mut self, v: VehicleId, i: usize, dst: usize) -> usize {
        self.s.step(0.3);
        let at = self.place(v);
        sym::check(at.is_some(), "does-not-leave-its-link");
        let Some(j) = at else { return i };
        if j != i {
            sym::check(self.lane[i][j], "changes-lanes-as-permitted");
            sym::check(self.reach[j][dst], "destination-stays-reachable");
            sym::cover(true, "changes-lanes");
        }
        j
    }

    /// Drives to the end of the link and beyond.
    fn cross(&mut self, v: VehicleId, i: usize, dst: usize) -> usize {
        let len = self.length(i);
        let u = sym::f64("before_u", 0.0, 14.0);
        let d = if len > LEN { 20.0 } else { sym::f64("before_d", 5.0, 55.0) };
        self.s.verif_set_motion(v, len - d, u);
        let i = self.step(v, i, dst);
        let (_, w) = motion(&self.s, v);
        sym::check(w >= u - EPS, "nothing-in-the-way");
        let (d, u) = (sym::f64("d", 0.0, 2.0), sym::f64("u", 8.0, 14.0));
        self.s.verif_set_motion(v, len - d, u);
        self.s.step(sym::f64("dt", 0.3, 0.5));
        i
    }

    /// Waits at the end of the link.
    fn wait(&mut self, v: VehicleId, i: usize) {
        let len = self.length(i);
        let u = sym::f64("wait_u", 0.0, 5.0);
        self.s.verif_set_motion(v, len - sym::f64("wait_d", 8.0, 60.0), u);
        self.s.step(sym::f64("wait_dt", 0.0, 0.2));
        let at = self.place(v);
        sym::note("link", at.map_or(-1.0, |i| i as f64));
        sym::check(at == Some(i), "does-not-leave-its-link");
        if at == Some(i) {
            sym::check(self.s.get_vehicle(v).pos_front() < len, "waits-at-the-end");
        }
    }

    /// Drives from link `i` until it has left the simulation or can go no further.
    fn drive(&mut self, v: VehicleId, mut i: usize, dst: usize) {
        for _ in 0..4 {
            i = self.settle(v, i, dst);
            if !self.reach[i][dst] {
                self.wait(v, i);
                sym::cover(true, "waits");
                return;
            }
            i = self.cross(v, i, dst);
            let at = self.place(v);
            sym::note("link", at.map_or(-1.0, |i| i as f64));
            sym::check((i == dst) == at.is_none(), "leaves-at-destination-only");
            let Some(j) = at else {
                sym::cover(true, "arrives");
                return;
            };
            sym::check(self.edge[i][j], "follows-connections");
            sym::check(self.reach[j][dst], "destination-stays-reachable");
            i = j;
        }
        sym::check(false, "arrives-without-detour");
    }
}

/// Two groups of two lanes in a row, any connections and lane changes.
fn lanes() -> Network {
    let mut s = Simulation::new();
    let links: Vec<LinkId> = (0..4)
        .map(|i| {
            let (x, y) = (LANE * (i / 2) as f64, 3.5 * (i % 2) as f64);
            line(&mut s, [x, y], [x + LANE, y], 16.0)
        })
        .collect();
    let mut edge = [[false; 4]; 4];
    for (i, j) in [(0, 2), (0, 3), (1, 2), (1, 3)] {
        if sym::bool("edge") {
            s.add_link_connection(links[i], links[j]);
            edge[i][j] = true;
        }
    }
    let mut n = Network::new(s, links, edge);
    for g in [0, 2] {
        let (right, left) = (sym::bool("right"), sym::bool("left"));
        n.lane[g][g + 1] = right;
        n.lane[g + 1][g] = left;
        n.s.add_link_group(&n.links[g..g + 2], ((right as u32) << 1) | ((left as u32) << 2));
    }
    n.close();
    n
}

harnesses! {
    fn h_c11_three() {
        let mut n = Network::any(3);
        let dst = sym::choice("dst", 0, 2);
        let v = n.start(0, dst);
        n.drive(v, 0, dst);
    }

    // Any connections forwards and one back.
    fn h_c11_four() {
        let back = [(4, 4), (1, 0), (2, 0), (3, 0), (2, 1), (3, 1), (3, 2)][sym::choice("back", 0, 6)];
        let mut n = Network::drawn(4, &mut |i, j| if i < j { sym::bool("edge") } else { (i, j) == back });
        let dst = sym::choice("dst", 0, 3);
        let v = n.start(0, dst);
        n.drive(v, 0, dst);
    }

    fn h_c11_four_deep() {
        let mut n = Network::any(4);
        let dst = sym::choice("dst", 0, 3);
        let v = n.start(0, dst);
        n.drive(v, 0, dst);
    }

    // The destination changes on the way, or is set again.
    fn h_c11_change() {
        let mut n = Network::any(3);
        let dst = sym::choice("dst", 0, 2);
        let v = n.start(0, dst);
        let mut at = 0;
        sym::assume(n.reach[0][dst]);
        if sym::bool("later") & (dst != 0) {
            let i = n.settle(v, 0, dst);
            n.cross(v, i, dst);
            sym::check(n.place(v).is_some(), "leaves-at-destination-only");
            let Some(i) = n.place(v) else { return };
            at = i;
        }
        let dst = sym::choice("dst2", 0, 2);
        sym::assume(n.reach[at][dst]);
        n.s.set_vehicle_destination(v, n.links[dst]);
        sym::check(n.s.get_vehicle(v).destination() == n.links[dst], "destination-reads-back");
        n.drive(v, at, dst);
    }

    // Without a destination it stays on its link.
    fn h_c11_none() {
        let mut n = Network::any(2);
        let v = n.s.add_vehicle(&CAR, n.links[0]);
        n.wait(v, 0);
    }

    fn h_c11_lanes() {
        let mut n = lanes();
        let dst = sym::choice("dst", 0, 3);
        let v = n.start(0, dst);
        n.drive(v, 0, dst);
    }

    // Of two ways it takes the faster one, up to the precision of travel times.
    fn h_c11_fastest() {
        let mut s = Simulation::new();
        let (x, y) = (sym::f64("limit_x", 8.0, 32.0), sym::f64("limit_y", 8.0, 32.0));
        let from = line(&mut s, [0.0, 0.0], [LEN, 0.0], 16.0);
        let one = line(&mut s, [LEN, 0.0], [LEN + 90.0, 0.0], x);
        let two = line(&mut s, [LEN, 9.0], [LEN + 100.0, 9.0], y);
        let to = line(&mut s, [200.0, 0.0], [260.0, 0.0], 16.0);
        if sym::bool("order") {
            s.add_link_connection(from, one);
            s.add_link_connection(from, two);
        } else {
            s.add_link_connection(from, two);
            s.add_link_connection(from, one);
        }
        s.add_link_connection(one, to);
        s.add_link_connection(two, to);
        let v = car_to(&mut s, &CAR, from, to);
        s.step(0.3);
        s.step(0.3);
        s.verif_set_motion(v, 59.0, 10.0);
        s.step(0.3);
        let at = s.get_vehicle(v).link_id();
        sym::note("one", (at == Some(one)) as u8 as f64);
        let (tx, ty) = (90.0 / x, 100.0 / y);
        sym::check((at == Some(one)) | (at == Some(two)), "follows-connections");
        sym::check(if at == Some(one) { tx <= ty + 0.2 } else { ty <= tx + 0.2 }, "takes-the-faster-way");
        sym::cover(at == Some(one), "one");
        sym::cover(at == Some(two), "two");
    }

    // Two lanes over, where the far lane is offset along the road.
    fn h_c11_staggered() {
        let mut s = Simulation::new();
        let x = 20.0 * sym::choice("shift", 0, 4) as f64 - 40.0;
        let one = line(&mut s, [0.0, 0.0], [LANE, 0.0], 16.0);
        let mid = line(&mut s, [0.0, 3.5], [LANE, 3.5], 16.0);
        let far = line(&mut s, [x, 7.0], [x + LANE, 7.0], 16.0);
        let turned = sym::choice("turned", 0, 1) == 1;
        let (group, mask) = if turned { ([far, mid, one], 0b10100) } else { ([one, mid, far], 0b1010) };
        s.add_link_group(&group, mask);
        let v = car_to(&mut s, &CAR, one, far);
        s.step(0.3);
        s.step(0.3);
        let p = sym::f64("p", 60.0, 110.0);
        s.verif_set_motion(v, p, 5.0);
        s.step(0.3);
        sym::note("pos", p);
        sym::check(s.get_vehicle(v).link_id() == Some(mid), "changes-lanes-in-time");
    }

    // A lane change asked for by the user, shortly before the end of the link.
    fn h_c11_called() {
        let mut s = Simulation::new();
        let ys = [3.5, 0.0];
        let first = ys.map(|y| line(&mut s, [0.0, y], [LANE, y], 16.0));
        let second = ys.map(|y| line(&mut s, [LANE, y], [2.0 * LANE, y], 16.0));
        s.add_link_group(&first, 0);
        let side = sym::choice("side", 0, 1);
        let (from, to) = (first[side], first[1 - side]);
        for i in 0..2 {
            s.add_link_connection(first[i], second[i]);
        }
        let leaves = sym::choice("leaves", 0, 1) == 1;
        let dst = if leaves { to } else { second[1 - side] };
        let v = car_to(&mut s, &CAR, from, dst);
        warm_up(&mut s);
        let (p, vel) = (sym::f64("p", 80.0, 119.9), 5.0 * sym::choice("vel", 0, 3) as f64);
        s.verif_set_motion(v, p, vel);
        s.do_lane_change(v, to, 30.0);
        s.step(0.15);
        // rounding matters too much within a few millimetres of the next link
        let to_go = s.iter_vehicles().map(|v| LANE - v.pos_mid()).sum::<f64>();
        sym::assume((to_go > 0.01) | (to_go <= 0.0));
        s.step(0.15);
        let there = s.iter_vehicles().next().is_some();
        sym::note("there", there as u8 as f64);
        sym::check(there | leaves, "still-there");
        if there {
            let link = s.get_vehicle(v).link_id();
            sym::check((link == Some(to)) | (link == Some(second[1 - side])) & !leaves, "on-its-way");
            // two steps with one acceleration each
            let one = next_speed(vel, free(&CAR, vel, 16.0), 0.15);
            sym::check(s.get_vehicle(v).vel() > one - 0.05, "not-held-up");
            sym::cover(link == Some(second[1 - side]), "next-link");
        }
    }
}
