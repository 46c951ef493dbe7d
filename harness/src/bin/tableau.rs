//! S07-S10: the tableau state and the selection rules.
use std::sync::Arc;

use relp_verif::explore::{Family, Request, Scenario, main_entry};
use relp_verif::lpq::*;
use relp_verif::{scenario, sides};

sides!("../scn/common.rs", "../scn/simplex.rs", "../scn/dense.rs", "../scn/solve.rs", "../scn/tableau.rs");

const OPS: u64 = 3_000_000;


fn s09(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 9);
    let mut out = vec![];
    for i in 0..if t { 600 } else { 150 } {
        let m = rng.range(1, if t { 5 } else { 4 }) as usize;
        let n = m + rng.range(1, 3) as usize;
        let a = random_matrix(&mut rng, m, n);
        let bs = Bases::new(to_q(&a), 5000);
        let mut cfg = EqCfg { a: rows_v(&a), b: nonneg_b(m), c: free_c(n), pivots: vec![] };
        cfg.pivots = start(&mut rng, &bs);
        let count = rng.range(1, if t { 8 } else { 5 }) as usize;
        let st = steps(&mut rng, &bs, &cfg.pivots, count);
        let cfg = Arc::new(cfg);
        let st = Arc::new(st);
        for lu in [true, false] {
            out.push(scenario!(format!("{i}-m{m}n{n}-x{}-{}", st.len(), engine(lu)), 50, OPS,
                |e, cfg, st| side => side::s09(e, &cfg, &st, lu, true)));
        }
    }
    // Symbolic coefficients in the matrix
    for i in 0..if t { 250 } else { 60 } {
        let m = rng.range(1, if t { 3 } else { 2 }) as usize;
        let n = m + rng.range(1, 2) as usize;
        let a = random_matrix(&mut rng, m, n);
        let bs = Bases::new(to_q(&a), 5000);
        let count = rng.range(1, 3) as usize;
        let mut cfg = EqCfg { a: rows_v(&a), b: nonneg_b(m), c: free_c(n), pivots: vec![] };
        // start from unit columns: always regular
        let units: Vec<usize> = (0..m).collect();
        for r in 0..m {
            for (c, &u) in units.iter().enumerate() {
                cfg.a[r][u] = V::K((r == c) as i64);
            }
        }
        let _ = bs;
        let mut spots: Vec<(usize, usize)> = (0..m).flat_map(|r| (m..n).map(move |c| (r, c))).collect();
        for k in 0..if t { 4 } else { 3 }.min(spots.len()) {
            let (r, c) = spots.swap_remove(rng.below(spots.len() as u64) as usize);
            cfg.a[r][c] = V::Free("a", k);
            if spots.is_empty() {
                break;
            }
        }
        cfg.pivots = (0..m).map(|r| (r, r)).collect();
        let mut st = vec![];
        let mut cols: Vec<usize> = (0..m).collect();
        for _ in 0..count {
            let row = rng.below(m as u64) as usize;
            let free: Vec<usize> = (0..n).filter(|c| !cols.contains(c)).collect();
            let col = *pick(&mut rng, &free);
            cols[row] = col;
            st.push((row, col));
        }
        let (cfg, st) = (Arc::new(cfg), Arc::new(st));
        for lu in [true, false] {
            out.push(scenario!(format!("a{i}-m{m}n{n}-x{}-{}", st.len(), engine(lu)), 60, OPS,
                |e, cfg, st| side => side::s09(e, &cfg, &st, lu, true)));
        }
    }
    // Following the rules
    out.extend(rules(req, if t { 100 } else { 20 }));
    out
}

fn rules(req: &Request, count: usize) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 7);
    let mut out = vec![];
    let mut i = 0;
    while i < count {
        let m = rng.range(1, 3) as usize;
        let n = m + rng.range(1, if t { 4 } else { 3 }) as usize;
        let a = random_matrix(&mut rng, m, n);
        let bs = Bases::new(to_q(&a), 5000);
        let mut base = EqCfg { a: rows_v(&a), b: vec![], c: vec![], pivots: vec![] };
        base.pivots = start(&mut rng, &bs);
        // a right-hand side for which the start is feasible
        let x: Vec<i64> = base.pivots.iter().map(|_| rng.range(0, 3)).collect();
        let mut b: Vec<i64> = (0..m).map(|r| base.pivots.iter().zip(&x).map(|(p, v)| a[r][p.1] * v).sum()).collect();
        let mut a = a;
        for r in 0..m {
            if b[r] < 0 {
                b[r] = -b[r];
                a[r].iter_mut().for_each(|v| *v = -*v);
            }
        }
        base.a = rows_v(&a);
        let bs = Arc::new(Bases::new(to_q(&a), 5000));
        base.b = b.iter().map(|&v| V::K(v)).collect();
        base.c = (0..n).map(|_| V::K(rng.range(-3, 3))).collect();
        i += 1;
        for what in ["b", "c", "bc"] {
            if what == "bc" && bs.bases.len() > 6 {
                continue;
            }
            let cfg = Arc::new(sym_eq(base.clone(), what));
            for rule in ["first", "memory", "variable", "objective"] {
                for lu in [true, false] {
                    let p = req.property.clone();
                    let steps = if t { 6 } else { 4 };
                    out.push(scenario!(format!("rule{i}-m{m}n{n}-{what}-{rule}-{}", engine(lu)), if t { 400 } else { 60 }, OPS,
                        |e, p, cfg, bs| side => side::rules(e, &p, &cfg, &bs, rule, lu, steps)));
                }
            }
        }
    }
    out
}

fn s10(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 10);
    let mut out = vec![];
    // The state implied by any basis, in any order of its columns
    for i in 0..if t { 400 } else { 80 } {
        let m = rng.range(1, if t { 5 } else { 4 }) as usize;
        let n = m + rng.range(0, 2) as usize;
        let a = random_matrix(&mut rng, m, n);
        let bs = Bases::new(to_q(&a), 5000);
        let mut cfg = EqCfg { a: rows_v(&a), b: nonneg_b(m), c: free_c(n), pivots: vec![] };
        cfg.pivots = start(&mut rng, &bs);
        let mut sorted = cfg.pivots.clone();
        sorted.sort();
        let order: Arc<Vec<usize>> = Arc::new(sorted.iter().map(|x| x.1).collect());
        let with_a = i % 4 == 0 && m <= 3;
        let cfg = Arc::new(if with_a { sym_a_regular(&mut rng, cfg, &order) } else { cfg });
        for lu in [true, false] {
            out.push(scenario!(format!("state{i}-m{m}n{n}{}-{}", if with_a { "-a" } else { "" }, engine(lu)), 60, OPS,
                |e, cfg, order| side => side::s10(e, &cfg, &order, lu)));
        }
    }
    let mut i = 0;
    while i < if t { 200 } else { 30 } {
        let m = rng.range(2, 3) as usize;
        let n = rng.range(1, 3) as usize;
        let base = random_eq(&mut rng, m, n, m);
        if base.pivots.len() < m {
            continue;
        }
        i += 1;
        let bs = Arc::new(Bases::new(base.matrix(), 1000));
        for what in ["b", "c", "zc"] {
            let full = sym_eq(base.clone(), what);
            for mask in 0..(1u32 << m) {
                // every placement of supplied columns
                let mut cfg = full.clone();
                cfg.pivots = (0..m).filter(|r| mask & (1 << r) != 0).map(|r| base.pivots[r]).collect();
                let all = cfg.pivots.len() == m;
                if !all && !t && rng.chance(1, 2) {
                    continue;
                }
                let cfg = Arc::new(cfg);
                for lu in [true, false] {
                    for kind in [1u8, 2] {
                        if kind == 2 && !all {
                            continue;
                        }
                        out.push(scenario!(
                            format!("{i}-m{m}n{n}-{what}-rows{mask:b}-kind{kind}-{}", engine(lu)),
                            if t { 500 } else { 60 }, OPS,
                            |e, cfg, bs| side => side::dense_verdict(e, &cfg, &bs, kind, lu)
                        ));
                    }
                }
            }
            // Any basis as the start, in general position
            let start = bs.bases[rng.below(bs.bases.len() as u64) as usize].0.clone();
            let mut cfg = full.clone();
            let shift = rng.below(m as u64) as usize;
            cfg.pivots = start.iter().enumerate().map(|(r, &c)| ((r + shift) % m, c)).collect();
            let cfg = Arc::new(cfg);
            if what == "b" {
                for lu in [true, false] {
                    out.push(scenario!(
                        format!("{i}-m{m}n{n}-{what}-start{start:?}-{}", engine(lu)),
                        if t { 500 } else { 60 }, OPS,
                        |e, cfg, bs| side => side::dense_verdict(e, &cfg, &bs, 2, lu)
                    ));
                }
            }
        }
    }
    out
}
/// Symbolic coefficients only in columns outside the basis, so that it stays regular.
fn sym_a_regular(rng: &mut Rng, mut cfg: EqCfg, basis: &[usize]) -> EqCfg {
    let n = cfg.c.len();
    let others: Vec<usize> = (0..n).filter(|j| !basis.contains(j)).collect();
    if others.is_empty() {
        // Scale the columns instead: still regular
        let m = basis.len();
        let col = *pick(rng, basis);
        let entries: Vec<usize> = (0..m).filter(|&i| cfg.a[i][col] != V::K(0)).collect();
        if entries.len() == 1 {
            cfg.a[entries[0]][col] = V::NonZero("a", 0);
        }
        return cfg;
    }
    for k in 0..2 {
        let j = *pick(rng, &others);
        let i = rng.below(cfg.a.len() as u64) as usize;
        cfg.a[i][j] = V::Free("a", k);
    }
    cfg
}

fn scenarios(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    match req.property.as_str() {
        "S09" => s09(req),
        "S10" => s10(req),
        _ => rules(req, if t { 400 } else { 90 }),
    }
}

fn describe(req: &Request) -> (Vec<&'static str>, String, Vec<&'static str>) {
    let t = req.thorough();
    let mut f = vec![
        "Tableau::{generate_column, generate_element, relative_cost, bring_into_basis, variable_value, current_bfs, objective_function_value, is_in_basis, new_with_inverse_maintainer}",
        "Carry::{change_basis, from_basis, from_basis_pivots, cost_difference, generate_column, generate_element, update_b, update_minus_pi_and_obj}",
        "LUDecomposition::* and BasisInverseRows::* (both engines)",
    ];
    match req.property.as_str() {
        "S07" => f.push("PivotRule::{new, select_primal_pivot_column, after_basis_update} of FirstProfitable, FirstProfitableWithMemory, SteepestDescentAlongVariable, SteepestDescentAlongObjective"),
        "S08" => f.push("Tableau::select_primal_pivot_row"),
        "S10" => f.push("SolveRelaxation for FullInitialBasis and PartialInitialBasis providers, Partially::new, Carry::create_for_partially_artificial, phase_one::primal"),
        _ => {}
    }
    let bounds = match req.property.as_str() {
        "S07" | "S08" => format!(
            "constraint matrices of 1-3 rows and at most {} columns with small integer entries (generated from the seed), started from an arbitrary basis in an arbitrary row order; for all nonnegative right-hand sides that make the start feasible, for all costs, or (few bases) both at once; at most {} consecutive steps; at most {} regions per scenario",
            if t { 7 } else { 6 }, if t { 6 } else { 4 }, if t { 400 } else { 60 }),
        "S09" => format!(
            "matrices of 1-{} rows and up to 3 more columns, all right-hand sides >= 0 and all costs at once, sequences of 1-{} exchanges at arbitrary positions (also infeasible ones); matrices of 1-{} rows with up to {} entries ranging over all rationals, 1-3 exchanges; and the exchanges chosen by the four rules",
            if t { 5 } else { 4 }, if t { 8 } else { 5 }, if t { 3 } else { 2 }, if t { 4 } else { 3 }),
        _ => format!(
            "matrices of 1-{} rows, every order of a basis, all right-hand sides >= 0 and all costs (and up to two matrix entries outside the basis); solves with every placement of supplied unit columns for 2-3 rows and from bases in general position",
            if t { 5 } else { 4 }),
    };
    (f, bounds, vec![
        "the numeric type is replaced by rational functions over the inputs with the same field laws; the code is generic in it",
        "random choices of concrete matrix entries depend only on VERIF_SEED",
    ])
}

fn main() {
    main_entry(Family { scenarios, describe })
}
