//! N01: network programs.
#![allow(clippy::all)]
use std::sync::Arc;

use relp_verif::explore::{Family, Request, Scenario, main_entry};
use relp_verif::lpq::Rng;
use relp_verif::scenario;

#[allow(dead_code, unused_imports)]
mod sym_side {
    use relp_verif::env::SymEnv as E;
    use relp_verif::sym::Sym as N;
    use relp_verif_net::representation as net;
    fn nq(q: relp_verif::q::Q) -> N {
        N::q(q)
    }
    fn definitely_nonzero(n: &N) -> bool {
        n.as_const().is_some_and(|q| !q.is_zero())
    }
    include!("../../src/scn/common.rs");
    include!("../../src/scn/network.rs");
}
#[allow(dead_code, unused_imports)]
mod nat_side {
    use relp::data::linear_program::network::representation as net;
    use relp_verif::env::NatEnv as E;
    use relp_verif::relp_num::RationalBig as N;
    fn nq(q: relp_verif::q::Q) -> N {
        relp_verif::env::to_big(q)
    }
    fn definitely_nonzero(_: &N) -> bool {
        false
    }
    include!("../../src/scn/common.rs");
    include!("../../src/scn/network.rs");
}

const OPS: u64 = 3_000_000;

fn graph(rng: &mut Rng, nv: usize, arcs: usize, not_into: Option<usize>) -> Vec<(usize, usize)> {
    let mut all: Vec<(usize, usize)> = (0..nv).flat_map(|i| (0..nv).map(move |j| (i, j))).filter(|&(i, j)| i != j && Some(j) != not_into).collect();
    while all.len() > arcs {
        all.remove(rng.below(all.len() as u64) as usize);
    }
    all
}
fn walks(arcs: &[(usize, usize)], at: usize, to: usize, seen: &mut Vec<usize>, used: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    for (a, &(f, h)) in arcs.iter().enumerate() {
        if f != at {
            continue;
        }
        if h == to {
            used.push(a);
            out.push(used.clone());
            used.pop();
        } else if !seen.contains(&h) {
            seen.push(h);
            used.push(a);
            walks(arcs, h, to, seen, used, out);
            used.pop();
            seen.pop();
        }
    }
}

fn scenarios(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 51);
    let mut out = vec![scenario!("arithmetic".to_string(), 10, OPS, |e,| side => side::arithmetic(e))];
    for i in 0..if t { 1500 } else { 300 } {
        let nv = rng.range(2, if t { 7 } else { 5 }) as usize;
        let count = rng.range(1, if t { 12 } else { 8 }) as usize;
        let arcs = graph(&mut rng, nv, count, None);
        let mut removed: Vec<usize> = (0..nv).collect();
        while removed.len() + 1 > nv || (!removed.is_empty() && rng.chance(2, 3)) {
            removed.remove(rng.below(removed.len() as u64) as usize);
        }
        for i in (1..removed.len()).rev() {
            removed.swap(i, rng.below(i as u64 + 1) as usize);
        }
        let mut filter: Vec<usize> = (0..nv - removed.len()).collect();
        while !filter.is_empty() && rng.chance(2, 3) {
            filter.remove(rng.below(filter.len() as u64) as usize);
        }
        let (arcs, removed, filter) = (Arc::new(arcs), Arc::new(removed), Arc::new(filter));
        out.push(scenario!(format!("incidence{i}-{arcs:?}-{removed:?}").replace(' ', ""), 10, OPS,
            |e, arcs, removed, filter| side => side::incidence(e, nv, &arcs, &removed, &filter)));
    }
    for i in 0..if t { 300 } else { 60 } {
        let nv = rng.range(2, if t { 5 } else { 4 }) as usize;
        let count = rng.range(1, if t { 9 } else { 6 }) as usize;
        let arcs = graph(&mut rng, nv, count, None);
        let s = rng.below(nv as u64) as usize;
        let sink = (s + 1 + rng.below(nv as u64 - 1) as usize) % nv;
        let mut paths = vec![];
        walks(&arcs, s, sink, &mut vec![s], &mut vec![], &mut paths);
        let mut cycles = vec![];
        for v in 0..nv {
            // Each cycle once: starting from its least vertex
            walks(&arcs, v, v, &mut (0..=v).collect(), &mut vec![], &mut cycles);
        }
        let (arcs, paths, cycles) = (Arc::new(arcs), Arc::new(paths), Arc::new(cycles));
        for lu in [true, false] {
            let free = i % 2 == 0;
            out.push(scenario!(format!("path{i}-{arcs:?}-{s}-{sink}-{}-{}", if free { "any" } else { "positive" }, relp_verif::lpq::engine(lu)).replace(' ', ""), if t { 500 } else { 150 }, OPS,
                |e, arcs, paths, cycles| side => side::shortest(e, nv, &arcs, s, sink, &paths, &cycles, free, lu)));
        }
    }
    for i in 0..if t { 200 } else { 40 } {
        let nv = rng.range(3, if t { 5 } else { 4 }) as usize;
        let count = rng.range(1, if t { 8 } else { 5 }) as usize;
        let s = rng.below(nv as u64) as usize;
        let sink = (s + 1 + rng.below(nv as u64 - 1) as usize) % nv;
        let arcs = graph(&mut rng, nv, count, Some(s));
        let arcs = Arc::new(arcs);
        for lu in [true, false] {
            out.push(scenario!(format!("flow{i}-{arcs:?}-{s}-{sink}-{}", relp_verif::lpq::engine(lu)).replace(' ', ""), if t { 500 } else { 150 }, OPS,
                |e, arcs| side => side::flow(e, nv, &arcs, s, sink, lu)));
        }
    }
    out
}

fn describe(req: &Request) -> (Vec<&'static str>, String, Vec<&'static str>) {
    let t = req.thorough();
    (
        vec![
            "IncidenceMatrix::{new, column, nr_vertices, nr_edges}, ArcIncidenceColumn::{iter, into_iter, into_filtered, identity}",
            "the arithmetic operators between numbers and ArcDirection (source compiled with the symbolic number as RationalBig)",
            "SolveRelaxation::solve_relaxation on shortest path and maximum flow programs built on them, with both basis inverse engines",
        ],
        format!("incidence: up to {} vertices and {} arcs, any vertices left out, weights over all nonzero rationals; shortest paths: up to {} vertices and {} arcs, weights over all positive (half of the graphs: all nonzero) rationals; maximum flows: up to {} vertices and {} arcs, capacities over all positive rationals", if t { 7 } else { 5 }, if t { 12 } else { 8 }, if t { 5 } else { 4 }, if t { 9 } else { 6 }, if t { 5 } else { 4 }, if t { 8 } else { 5 }),
        vec![
            "no arcs from a vertex to itself (documented)",
            "the programs are those of the examples in the repository: `examples/shortest_path.rs` and `examples/max_flow.rs`, with the provider written in the harness",
        ],
    )
}

fn main() {
    main_entry(Family { scenarios, describe })
}
