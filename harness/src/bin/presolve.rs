//! R01-R04: presolving programs in general form.
use std::sync::Arc;

use relp_verif::explore::{Family, Request, Scenario, main_entry};
use relp_verif::lpq::*;
use relp_verif::{scenario, sides};

sides!("../scn/common.rs", "../scn/simplex.rs", "../scn/general.rs", "../scn/presolve.rs");

const OPS: u64 = 3_000_000;

/// Costs stay zero where they are zero, sometimes.
fn parts(rng: &mut Rng, p: GCfg, what: &str) -> GCfg {
    let keep = rng.chance(2, 3);
    let old: Vec<V> = p.vars.iter().map(|v| v.cost.clone()).collect();
    let mut p = symbolic(rng, p, what);
    if keep {
        for (v, c) in p.vars.iter_mut().zip(old) {
            if c == V::K(0) {
                v.cost = c;
            }
        }
    }
    p
}

fn cases(req: &Request, what: u8, salt: u64) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, salt);
    let mut out = vec![];
    let count = if t { 5000 } else { 1500 };
    let mut i = 0;
    while i < count {
        let n = rng.range(1, 4) as usize;
        let m = rng.range(1, if t { 5 } else { 4 }) as usize;
        let max = rng.chance(1, 4);
        let base = if rng.chance(1, 4) { program(&mut rng, n, m, max) } else { sparse_program(&mut rng, n, m, max) };
        let a = base.std_matrix();
        if a[0].len() > 13 {
            continue;
        }
        let kind = *pick(&mut rng, &["b", "l", "bl", "bl", "bl", "c"]);
        let times = if rng.chance(1, 6) { 2 } else { 1 };
        let p = parts(&mut rng, base, kind);
        let with_costs = p.vars.iter().any(|v| !matches!(v.cost, V::K(_)));
        let bs = Bases::new(a, 100_000);
        if with_costs && bs.bases.len() > 100 {
            continue;
        }
        let p = Arc::new(p);
        let bs = Arc::new(bs);
        let zero: Arc<Vec<bool>> = Arc::new((0..2 * n).map(|_| rng.chance(1, 5)).collect());
        out.push(scenario!(format!("presolve{i}-{times}-{kind}-{}", label(&p)), if t { 300 } else { 30 }, OPS,
            |e, p, bs, zero| side => side::presolve_case(e, &p, &bs, times, &zero, what)));
        i += 1;
    }
    if what != 1 {
        let bs = Arc::new(Bases::new(vec![vec![]], 1));
        for i in 0..if t { 3000 } else { 500 } {
            let p = Arc::new(wide_program(&mut rng, if t { 6 } else { 5 }));
            let times = if rng.chance(1, 6) { 2 } else { 1 };
            let zero: Arc<Vec<bool>> = Arc::new(vec![]);
            out.push(scenario!(format!("wide{i}-{times}-{}", label(&p)), 20, OPS,
                |e, p, bs, zero| side => side::presolve_case(e, &p, &bs, times, &zero, what)));
        }
    }
    for i in 0..if t { 600 } else { 150 } {
        let p = circles(&mut rng);
        let bs = Arc::new(Bases::new(p.std_matrix(), 100_000));
        let p = Arc::new(p);
        let zero: Arc<Vec<bool>> = Arc::new(vec![]);
        out.push(scenario!(format!("circle{i}-{}", label(&p)), if t { 300 } else { 40 }, OPS,
            |e, p, bs, zero| side => side::presolve_case(e, &p, &bs, 1, &zero, what)));
    }
    for i in 0..if t { 400 } else { 100 } {
        let p = late_slack(&mut rng);
        let bs = Arc::new(Bases::new(p.std_matrix(), 100_000));
        let p = Arc::new(p);
        let zero: Arc<Vec<bool>> = Arc::new(vec![]);
        out.push(scenario!(format!("late{i}-{}", label(&p)), if t { 300 } else { 60 }, OPS,
            |e, p, bs, zero| side => side::presolve_case(e, &p, &bs, 2, &zero, what)));
    }
    out
}

/// Programs in which bounds are derived from bounds that were derived from the same row.
fn circles(rng: &mut Rng) -> GCfg {
    let bound = |rng: &mut Rng, j: usize| match rng.below(4) {
        0 => (None, None),
        1 => (Some(V::Free("l", j)), Some(V::NonNeg("w", j))),
        2 => (None, Some(V::Free("u", j))),
        _ => (Some(V::Free("l", j)), None),
    };
    let n = rng.range(2, 3) as usize;
    let slow = rng.chance(1, 2);
    let mut rows = vec![];
    for i in 0..rng.range(2, 4) as usize {
        let kind = *pick(rng, &[Rk::Le, Rk::Le, Rk::Ge, Rk::Range]);
        let mut row = vec![V::K(0); n];
        let (a, b) = (i % n, (i + 1) % n);
        // Nearly parallel rows tighten bounds slowly
        let values: &[i64] = if slow { &[9, 10, -9, -10] } else { &[1, 2, -1, -2] };
        row[a] = V::K(*pick(rng, values));
        row[b] = V::K(*pick(rng, values));
        rows.push((kind, row, V::Free("b", i), V::Pos("r", i)));
    }
    GCfg {
        maximize: rng.chance(1, 4),
        rows,
        vars: (0..n)
            .map(|j| {
                let (lower, upper) = bound(rng, j);
                GVar { lower, upper, cost: V::K(rng.range(-3, 3)), integer: false }
            })
            .collect(),
        fixed: V::K(0),
    }
}

/// A slack variable that appears after another row is removed, so that its row can be removed the next time.
fn late_slack(rng: &mut Rng) -> GCfg {
    let n = rng.range(3, 4) as usize;
    let mut first: Vec<V> = (0..n).map(|_| V::K(*pick(rng, &[1, 1, 2, -1]))).collect();
    if n == 4 {
        first[n - 1] = V::K(0);
    }
    let mut second = vec![V::K(0); n];
    let slack = rng.below(2) as usize;
    second[slack] = V::K(1);
    second[n - 1] = V::K(*pick(rng, &[1, -1]));
    let var = |rng: &mut Rng, j: usize, cost: i64| GVar {
        lower: Some(V::K(rng.range(-1, 1))),
        upper: Some(V::K(rng.range(2, 8 - 2 * j as i64 % 5))),
        cost: V::K(cost),
        integer: false,
    };
    GCfg {
        maximize: rng.chance(1, 4),
        rows: vec![
            (*pick(rng, &[Rk::Eq, Rk::Range]), first, V::Free("b", 0), V::Pos("r", 0)),
            (*pick(rng, &[Rk::Le, Rk::Ge]), second, V::Free("b", 1), V::K(1)),
        ],
        vars: (0..n)
            .map(|j| {
                let cost = if j == slack { 0 } else { rng.range(-2, 2) };
                var(rng, j, cost)
            })
            .collect(),
        fixed: V::K(0),
    }
}

/// Only the end of presolving matters; more data is symbolic and programs are larger.
fn runs(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 61);
    let mut out = vec![];
    let bs = Arc::new(Bases::new(vec![vec![]], 1));
    for i in 0..if t { 2000 } else { 400 } {
        let p = Arc::new(wide_program(&mut rng, if t { 8 } else { 6 }));
        let times = if rng.chance(1, 4) { 2 } else { 1 };
        out.push(scenario!(format!("wide{i}-{times}-{}", label(&p)), 20, OPS,
            |e, p, bs| side => side::presolve_case(e, &p, &bs, times, &[], 0)));
    }
    for i in 0..if t { 4000 } else { 2000 } {
        let n = rng.range(1, 5) as usize;
        let m = rng.range(1, if t { 6 } else { 5 }) as usize;
        let max = rng.chance(1, 4);
        let base = if rng.chance(1, 4) { program(&mut rng, n, m, max) } else { sparse_program(&mut rng, n, m, max) };
        let kind = *pick(&mut rng, &["bl", "blc", "blc", "blca"]);
        let p = Arc::new(parts(&mut rng, base, kind));
        let times = if rng.chance(1, 5) { 2 } else { 1 };
        out.push(scenario!(format!("run{i}-{times}-{kind}-{}", label(&p)), if t { 300 } else { 30 }, OPS,
            |e, p, bs| side => side::presolve_case(e, &p, &bs, times, &[], 0)));
    }
    out
}

fn scenarios(req: &Request) -> Vec<Scenario> {
    match req.property.as_str() {
        "R01" => cases(req, 1, 62),
        "R02" => cases(req, 2, 63),
        "R03" => cases(req, 4, 64),
        _ => runs(req),
    }
}

fn describe(req: &Request) -> (Vec<&'static str>, String, Vec<&'static str>) {
    let t = req.thorough();
    let f = vec![
        "GeneralForm::{new, presolve, compute_presolve_changes, update_values_that_remain, remove_rows_and_columns, compute_solution_where_possible, get_solution}",
        "presolve::{Index::*, Counters::*, Queues::*, Updates::*}, rules fixed_variable, bound_constraint, slack, domain_propagation",
        "GeneralForm::{standardize, derive_matrix_data, compute_full_solution_with_reduced_solution} to observe the presolved program",
    ];
    let bounds = match req.property.as_str() {
        "R04" => format!("programs of 1-5 variables of every bound kind and 1-{} rows of every kind; all right-hand sides, ranges, bounds, costs, constants and part of the coefficients; presolved once or twice; wide programs with many removable rows and columns", if t { 6 } else { 5 }),
        _ => format!("programs of 1-4 variables of every bound kind (also fixed) and 1-{} rows of every kind, with fixed small coefficients; all right-hand sides and ranges, all bounds, both of them, or all costs; all points of either program; wide programs of up to 10 variables with removable parts", if t { 5 } else { 4 }),
    };
    (f, bounds, vec![
        "the numeric type is replaced by rational functions over the inputs with the same field laws; the code is generic in it",
        "lower bounds are at most upper bounds, ranges are nonnegative",
        "the presolved program is observed through its standard form (see G01)",
    ])
}

fn main() {
    main_entry(Family { scenarios, describe })
}
