//! C23: enumeration of routes.

use crate::sym;
use crate::util::*;
use traffic_sim::{LinkId, Simulation};

/// Compares the listed routes with reachability in the drawn network.
fn compare(s: &Simulation, links: &[LinkId], step: &dyn Fn(usize, usize) -> bool, ins: &[bool], outs: &[bool]) {
    let n = links.len();
    let mut reach = [[false; 6]; 6];
    for i in 0..n {
        reach[i][i] = true;
    }
    for _ in 0..n {
        for i in 0..n {
            for j in 0..n {
                for k in 0..n {
                    if reach[i][j] && step(j, k) {
                        reach[i][k] = true;
                    }
                }
            }
        }
    }
    let routes: Vec<(LinkId, LinkId)> = s.all_routes().collect();
    sym::note("routes", routes.len() as f64);
    let mut expect = 0;
    for i in 0..n {
        for j in 0..n {
            let ok = !ins[i] && !outs[j] && reach[i][j];
            expect += ok as usize;
            let listed = routes.iter().filter(|r| **r == (links[i], links[j])).count();
            sym::check(listed > 0 || !ok, "every-drivable-pair-listed");
            sym::check(listed == 0 || ok, "only-drivable-pairs-listed");
            sym::check(listed <= 1, "listed-once");
        }
    }
    sym::cover(expect > 1, "several-routes");
}

/// Arbitrary connections between `n` links without lane groups.
fn plain(n: usize) {
    let mut s = Simulation::new();
    let links: Vec<LinkId> = (0..n).map(|i| line(&mut s, [0.0, i as f64], [2.0, i as f64], 10.0)).collect();
    let mut edge = [[false; 6]; 6];
    let (mut ins, mut outs) = ([false; 6], [false; 6]);
    for i in 0..n {
        for j in 0..n {
            if i != j && sym::bool(["e0", "e1", "e2", "e3", "e4", "e5"][i]) {
                s.add_link_connection(links[i], links[j]);
                edge[i][j] = true;
                outs[i] = true;
                ins[j] = true;
            }
        }
    }
    compare(&s, &links, &|a, b| edge[a][b], &ins, &outs);
}

harnesses! {
    fn h_c23_three() { plain(3) }
    fn h_c23_four() { plain(4) }

    // Two groups of two lanes in a row: any connections, any lane changes.
    fn h_c23_groups() {
        let mut s = Simulation::new();
        let links: Vec<LinkId> = (0..4).map(|i| {
            let (x, y) = (4.0 * (i / 2) as f64, 3.5 * (i % 2) as f64);
            line(&mut s, [x, -y], [x + 4.0, -y], 10.0)
        }).collect();
        let (mut ins, mut outs) = ([false; 6], [false; 6]);
        let mut edge = [[false; 6]; 6];
        for i in 0..2 {
            for j in 2..4 {
                if sym::bool("edge") {
                    s.add_link_connection(links[i], links[j]);
                    edge[i][j] = true;
                    outs[i] = true;
                    ins[j] = true;
                }
            }
        }
        for g in [0, 2] {
            let (right, left) = (sym::bool("right"), sym::bool("left"));
            edge[g][g + 1] = right;
            edge[g + 1][g] = left;
            s.add_link_group(&links[g..g + 2], ((right as u32) << 1) | ((left as u32) << 2));
        }
        compare(&s, &links, &|a, b| edge[a][b], &ins, &outs);
    }
}
