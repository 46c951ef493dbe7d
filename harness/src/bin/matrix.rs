//! M01, M02: the canonical matrix view.
use std::sync::Arc;

use relp_verif::explore::{Family, Request, Scenario, main_entry};
use relp_verif::lpq::*;
use relp_verif::{scenario, sides};

sides!("../scn/common.rs", "../scn/matrix.rs");

const OPS: u64 = 3_000_000;

/// All data symbolic, except for the pattern of the zeros; `some`: part of the coefficients is fixed.
fn program(rng: &mut Rng, n: usize, counts: [usize; 4], coefficients: usize) -> MCfg {
    let kinds: Vec<Rk> = [Rk::Eq, Rk::Range, Rk::Le, Rk::Ge].iter().zip(counts).flat_map(|(&k, c)| std::iter::repeat_n(k, c)).collect();
    let mut left = coefficients;
    let mut next = 0;
    let rows: Vec<(Rk, Vec<V>)> = kinds
        .iter()
        .map(|&kind| {
            let row = (0..n)
                .map(|_| {
                    if !rng.chance(3, 4) {
                        V::K(0)
                    } else if left > 0 && rng.chance(2, 3) {
                        left -= 1;
                        next += 1;
                        if rng.chance(1, 3) { V::Free("a", next) } else { V::NonZero("a", next) }
                    } else {
                        V::K(*pick(rng, &[1, -1, 2, 3, -2]))
                    }
                })
                .collect();
            (kind, row)
        })
        .collect();
    let m = rows.len();
    MCfg {
        b: nonneg_b(m),
        r: (0..counts[1]).map(|i| V::Pos("r", i)).collect(),
        u: (0..n).map(|j| if rng.chance(1, 2) { Some(V::NonNeg("u", j)) } else { None }).collect(),
        c: free_c(n),
        rows,
    }
}

fn label(p: &MCfg) -> String {
    let kinds: String = p.rows.iter().map(|r| match r.0 { Rk::Eq => '=', Rk::Range => 'r', Rk::Le => '<', Rk::Ge => '>' }).collect();
    let bounds: String = p.u.iter().map(|u| if u.is_some() { 'u' } else { '.' }).collect();
    format!("{kinds}-{bounds}")
}

fn m01(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 41);
    let mut out = vec![];
    let mut add = |rng: &mut Rng, i: usize, counts: [usize; 4], n: usize, coefficients: usize, paths: usize| {
        let p = Arc::new(program(rng, n, counts, coefficients));
        out.push(scenario!(format!("view{i}-{}", label(&p)), paths, OPS, |e, p| side => side::m01(e, &p)));
    };
    let mut i = 0;
    // Every mix of at most two rows of each kind, up to a total
    let most = if t { 6 } else { 4 };
    for code in 0..81usize {
        let counts = [code % 3, code / 3 % 3, code / 9 % 3, code / 27];
        let m: usize = counts.iter().sum();
        if m == 0 || m > most {
            continue;
        }
        for _ in 0..if t { 20 } else { 6 } {
            let n = rng.range(1, if t { 4 } else { 3 }) as usize;
            add(&mut rng, i, counts, n, 2, if t { 100 } else { 20 });
            i += 1;
        }
    }
    for _ in 0..if t { 600 } else { 150 } {
        let mut counts = [0; 4];
        for _ in 0..rng.range(3, if t { 9 } else { 6 }) {
            counts[rng.below(4) as usize] += 1;
        }
        let n = rng.range(2, if t { 6 } else { 4 }) as usize;
        add(&mut rng, i, counts, n, 1, 20);
        i += 1;
    }
    out
}
fn m02(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 42);
    let mut out = vec![];
    for i in 0..if t { 3000 } else { 600 } {
        let ne = rng.range(1, if t { 9 } else { 6 }) as usize;
        let counts = [ne, rng.below(3) as usize, rng.below(3) as usize, rng.below(3) as usize];
        let n = rng.range(1, if t { 5 } else { 3 }) as usize;
        let p = program(&mut rng, n, counts, 2);
        let mut removed: Vec<usize> = (0..ne).collect();
        while !removed.is_empty() && (removed.len() == counts.iter().sum::<usize>() || rng.chance(1, 2)) {
            removed.remove(rng.below(removed.len() as u64) as usize);
        }
        let mut deletes = vec![];
        let mut left = ne - removed.len();
        while left > 1 && rng.chance(2, 3) {
            deletes.push(rng.below(left as u64) as usize);
            left -= 1;
        }
        let (p, removed, deletes) = (Arc::new(p), Arc::new(removed), Arc::new(deletes));
        out.push(scenario!(format!("filter{i}-{}-{removed:?}-{deletes:?}", label(&p)).replace(' ', ""), 20, OPS,
            |e, p, removed, deletes| side => side::m02(e, &p, &removed, &deletes)));
    }
    for i in 0..if t { 2000 } else { 400 } {
        let m = rng.range(1, if t { 10 } else { 7 }) as usize;
        let pattern: Vec<V> = (0..m)
            .map(|j| match rng.below(4) { 0 => V::K(0), 1 => V::K(2), _ if j < 4 => V::Free("v", j), _ => V::K(-1) })
            .collect();
        let mut removed: Vec<usize> = (0..m).collect();
        while !removed.is_empty() && rng.chance(3, 5) {
            removed.remove(rng.below(removed.len() as u64) as usize);
        }
        let (pattern, removed) = (Arc::new(pattern), Arc::new(removed));
        out.push(scenario!(format!("column{i}-{removed:?}").replace(' ', ""), 50, OPS,
            |e, pattern, removed| side => side::m02_column(e, &pattern, &removed)));
    }
    out
}

fn scenarios(req: &Request) -> Vec<Scenario> {
    match req.property.as_str() {
        "M01" => m01(req),
        _ => m02(req),
    }
}

fn describe(req: &Request) -> (Vec<&'static str>, String, Vec<&'static str>) {
    let t = req.thorough();
    if req.property == "M01" {
        (
            vec![
                "MatrixData::{new, column, cost_value, right_hand_side, bound_row_index, nr_constraints, nr_variable_bounds, nr_rows, nr_columns, reconstruct_solution, pivot_element_indices, nr_initial_elements}",
                "matrix_data::Column::{iter, into_iter}",
            ],
            format!("every mix of row kinds with at most two rows of each kind and {} rows in total, random mixes up to {} rows, up to {} variables with and without upper bound; right-hand sides, ranges, bounds, costs and points over all rationals in their domain, up to 2 symbolic coefficients", if t { 6 } else { 4 }, if t { 9 } else { 6 }, if t { 6 } else { 4 }),
            vec!["the inputs meet the documented preconditions: rows sorted by kind, lower bounds zero, right-hand sides nonnegative, ranges positive"],
        )
    } else {
        (
            vec![
                "RemoveRows::{new, column, cost_value, right_hand_side, bound_row_index, nr_constraints, nr_variable_bounds, nr_rows, nr_columns, get_underlying_row_index, delete_row, nr_constraints_deleted, filtered_rows, pivot_element_indices, nr_initial_elements, reconstruct_solution}",
                "matrix_data::Column::into_filtered",
            ],
            format!("up to {} equality rows and 2 rows of each other kind, arbitrary subsets removed, followed by deletions one by one; data over all rationals in their domain", if t { 9 } else { 6 }),
            vec!["only equality rows are removed (documented: only those can be linearly dependent)"],
        )
    }
}

fn main() {
    main_entry(Family { scenarios, describe })
}
