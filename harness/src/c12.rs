//! C12: lane change permissions.

use crate::sym;
use crate::util::*;
use traffic_sim::{LinkId, Simulation};

/// `n` parallel lanes, left to right, with an arbitrary lane change mask.
fn permissions(n: usize) {
    let mut s = Simulation::new();
    let lanes: Vec<LinkId> = (0..n).map(|i| line(&mut s, [0.0, -3.5 * i as f64], [4.0, -3.5 * i as f64], 10.0)).collect();
    let mask = sym::int("mask", 0, u32::MAX as u64) as u32;
    s.add_link_group(&lanes, mask);
    let left = |i: usize| (mask >> (2 * i)) & 1 == 1;
    let right = |i: usize| (mask >> (2 * i + 1)) & 1 == 1;
    let has = |l: &[LinkId], x: LinkId| l.iter().filter(|y| **y == x).count() == 1;

    for i in 0..n {
        let link = s.get_link(lanes[i]);
        let mut expect = 0;
        for j in 0..n {
            let ok = (i > 0 && j == i - 1 && left(i)) || (j == i + 1 && right(i));
            expect += ok as usize;
            sym::check(has(link.lane_changes(), lanes[j]) == ok, "neighbours-as-in-mask");
        }
        sym::check(link.lane_changes().len() == expect, "no-other-neighbours");
        for j in 0..n {
            // j is reachable from i iff every change on the way is permitted
            let mut ok = true;
            for k in 0..n {
                if j < i && k > j && k <= i {
                    ok &= left(k);
                }
                if j > i && k < j && k >= i {
                    ok &= right(k);
                }
            }
            sym::check(has(link.reachable_lanes(), lanes[j]) == ok, "reachable-iff-permitted");
            let from = s.get_link(lanes[j]).reachable_from_lanes();
            sym::check(has(from, lanes[i]) == ok, "reachable-from-is-the-converse");
        }
        sym::note("reachable", link.reachable_lanes().len() as f64);
        sym::cover(link.reachable_lanes().len() == n, "all-lanes-reachable");
        sym::cover(link.lane_changes().is_empty(), "no-lane-change");
    }
}

harnesses! {
    fn h_c12_two() { permissions(2) }
    fn h_c12_three() { permissions(3) }
    fn h_c12_four() { permissions(4) }
    fn h_c12_five() { permissions(5) }

    // A link without a group reaches itself only.
    fn h_c12_single() {
        let mut s = Simulation::new();
        let a = line(&mut s, [0.0, 0.0], [sym::f64("len", 5.0, 5.0), 0.0], 10.0);
        let l = s.get_link(a);
        sym::note("length", l.length());
        sym::check(l.lane_changes().is_empty(), "no-lane-change");
        sym::check(l.reachable_lanes() == [a] && l.reachable_from_lanes() == [a], "only-itself");
    }
}
