//! G01-G04: programs in general form.
use std::sync::Arc;

use relp_verif::explore::{Family, Request, Scenario, main_entry};
use relp_verif::lpq::*;
use relp_verif::{scenario, sides};

sides!("../scn/common.rs", "../scn/simplex.rs", "../scn/general.rs");

const OPS: u64 = 3_000_000;

/// Transformation and mapping back.
fn transform(req: &Request, what: u8) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 51 + what as u64);
    let mut out = vec![];
    for i in 0..if t { 1500 } else { 220 } {
        let n = rng.range(1, if t { 4 } else { 3 }) as usize;
        let m = rng.range(1, if t { 5 } else { 3 }) as usize;
        let max = rng.chance(1, 3);
        let base = program(&mut rng, n, m, max);
        let kind = *pick(&mut rng, &["bl", "blc", "blca", "blca"]);
        let p = Arc::new(symbolic(&mut rng, base, kind));
        if what & 1 != 0 {
            out.push(scenario!(format!("forward{i}-{kind}-{}", label(&p)), if t { 300 } else { 60 }, OPS, |e, p| side => side::g01_forward(e, &p)));
        }
        let zero: Vec<bool> = (0..2 * n).map(|_| rng.chance(1, 4)).collect();
        let zero = Arc::new(zero);
        out.push(scenario!(format!("backward{i}-{kind}-{}", label(&p)), if t { 300 } else { 60 }, OPS,
            |e, p, zero| side => side::g01_backward(e, &p, &zero, what)));
    }
    out
}

/// Programs with few bases of the equality form.
fn shapes(rng: &mut Rng, count: usize, vars: i64, rows: i64, max_bases: usize, full_rank: bool, max: Option<bool>, sparse: bool) -> Vec<(GCfg, Arc<Bases>)> {
    let mut out = vec![];
    while out.len() < count {
        let n = rng.range(1, vars) as usize;
        let m = rng.range(1, rows) as usize;
        let dir = max.unwrap_or(rng.chance(1, 3));
        let p = if sparse && rng.chance(1, 2) { sparse_program(rng, n, m, dir) } else { program(rng, n, m, dir) };
        let a = p.std_matrix();
        if a[0].len() > 11 || (full_rank && rank(&a) < a.len()) {
            continue;
        }
        let bs = Bases::new(a, 5000);
        if bs.bases.len() > max_bases {
            continue;
        }
        out.push((p, Arc::new(bs)));
    }
    out
}

fn solves(req: &Request, what: u8, max: Option<bool>, salt: u64) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, salt);
    let mut out = vec![];
    for (i, (base, bs)) in shapes(&mut rng, if t { 400 } else { 100 }, if t { 4 } else { 3 }, if t { 4 } else { 3 }, if t { 300 } else { 70 }, true, max, false).into_iter().enumerate() {
        for kind in ["b", "l", "c", "bl"] {
            if kind == "bl" && bs.bases.len() > if t { 60 } else { 12 } {
                continue;
            }
            let p = Arc::new(symbolic(&mut rng, base.clone(), kind));
            let lu = i % 2 == 0;
            out.push(scenario!(format!("solve{i}-{kind}-{}-{}", label(&p), engine(lu)), if t { 1500 } else { 300 }, OPS,
                |e, p, bs| side => side::solve_and_judge(e, &p, &bs, lu, what)));
        }
    }
    out
}

fn pipelines(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 54);
    let mut out = vec![];
    for (i, (base, bs)) in shapes(&mut rng, if t { 3000 } else { 700 }, if t { 4 } else { 3 }, if t { 5 } else { 4 }, if t { 300 } else { 70 }, false, None, true).into_iter().enumerate() {
        for kind in ["b", "l", "c", "bl"] {
            if kind == "bl" && bs.bases.len() > if t { 60 } else { 12 } {
                continue;
            }
            let p = Arc::new(symbolic(&mut rng, base.clone(), kind));
            let lu = i % 2 == 0;
            out.push(scenario!(format!("pipeline{i}-{kind}-{}-{}", label(&p), engine(lu)), if t { 500 } else { 40 }, OPS,
                |e, p, bs| side => side::pipeline(e, &p, &bs, lu)));
        }
    }
    out
}

/// Larger programs of which presolve removes most of the variables.
fn wide(req: &Request, what: u8, salt: u64) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, salt);
    let mut out = vec![];
    for i in 0..if t { 2500 } else { 300 } {
        let p = Arc::new(wide_program(&mut rng, if t { 6 } else { 5 }));
        let (lu, presolve) = (i % 2 == 0, what == 15 && i % 4 < 3);
        out.push(scenario!(format!("wide{i}-{}-{}{}", label(&p), engine(lu), if presolve { "-presolved" } else { "" }), 20, OPS,
            |e, p| side => side::pipeline_points(e, &p, presolve, lu, what)));
    }
    out
}

fn scenarios(req: &Request) -> Vec<Scenario> {
    match req.property.as_str() {
        "G01" => transform(req, 1),
        "G02" => {
            let mut v = transform(req, 2);
            v.extend(solves(req, 3, None, 56));
            v.extend(wide(req, 3, 58));
            v
        }
        "G03" => {
            let mut v = solves(req, 14, Some(true), 57);
            // One program for the sign of the reported value
            let p = GCfg {
                maximize: true,
                rows: vec![(Rk::Le, vec![V::K(1)], V::Pos("b", 0), V::K(0))],
                vars: vec![GVar { lower: Some(V::K(0)), upper: None, cost: V::K(1), integer: false }],
                fixed: V::K(0),
            };
            let bs = Arc::new(Bases::new(p.std_matrix(), 100));
            let p = Arc::new(p);
            v.push(scenario!("sign".to_string(), 10, OPS, |e, p, bs| side => side::solve_and_judge(e, &p, &bs, true, 30)));
            v
        }
        _ => {
            let mut v = pipelines(req);
            v.extend(wide(req, 15, 59));
            v
        }
    }
}

fn describe(req: &Request) -> (Vec<&'static str>, String, Vec<&'static str>) {
    let t = req.thorough();
    let mut f = vec![
        "GeneralForm::{new, standardize, transform_variables, split_free_variables, make_b_non_negative, make_minimization_problem, reorder_constraints_by_type, derive_matrix_data}",
        "GeneralForm::{compute_full_solution_with_reduced_solution, reshift_solution, compute_solution_value_with_bfs}",
        "SparseVector::{shift_value, set, get}, SparseMatrix::{concatenate_horizontally, change_row_signs}, MatrixData::*",
    ];
    let bounds = match req.property.as_str() {
        "G01" | "G02" => {
            if req.property == "G02" {
                f.push("SolveRelaxation::solve_relaxation with both engines");
            }
            format!("1-{} variables of every bound kind, 1-{} rows of every kind in any order, both objective directions; all right-hand sides, ranges, bounds (lower <= upper), costs, constants, points of either form and part of the coefficients; other coefficients small integers from the seed{}", if t { 4 } else { 3 }, if t { 5 } else { 3 },
                if req.property == "G02" { "; solves for all right-hand sides, all bounds, all costs, and both of the first on small programs, and wide programs with many removable rows and columns" } else { "" })
        }
        "G03" => format!("maximization programs of 1-{0} variables of every bound kind and 1-{0} rows of every kind; all right-hand sides and ranges, all bounds, all costs, and small programs with all right-hand sides, ranges and bounds", if t { 4 } else { 3 }),
        _ => {
            f.push("GeneralForm::presolve and everything below it, SolveRelaxation::solve_relaxation with both engines");
            format!("programs of 1-{} variables of every bound kind and 1-{} rows of every kind, any rank; all right-hand sides and ranges, all bounds, all costs, and small programs with all right-hand sides, ranges and bounds; wide programs with many removable rows and columns", if t { 4 } else { 3 }, if t { 5 } else { 4 })
        }
    };
    (f, bounds, vec![
        "the numeric type is replaced by rational functions over the inputs with the same field laws; the code is generic in it",
        "lower bounds are at most upper bounds, ranges are nonnegative",
        "solving: the oracle enumerates all bases of an independently constructed equality form",
    ])
}

fn main() {
    main_entry(Family { scenarios, describe })
}
