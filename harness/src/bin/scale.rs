//! R05: scaling of programs in general form.
use std::sync::Arc;

use relp_verif::explore::{Family, Request, Scenario, main_entry};
use relp_verif::lpq::*;
use relp_verif::{scenario, sides};

sides!("../scn/common.rs", "../scn/simplex.rs", "../scn/general.rs", "../scn/scale.rs");

const OPS: u64 = 3_000_000;

fn scenarios(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 81);
    let mut out = vec![];
    for i in 0..if t { 1200 } else { 220 } {
        let n = rng.range(1, if t { 5 } else { 4 }) as usize;
        let m = rng.range(0, if t { 5 } else { 4 }) as usize;
        let max = rng.chance(1, 3);
        let base = if rng.chance(1, 3) { sparse_program(&mut rng, n, m, max) } else { program(&mut rng, n, m, max) };
        let kind = *pick(&mut rng, &["", "bl", "blc", "blca", "blca"]);
        let p = Arc::new(symbolic(&mut rng, base, kind));
        let s = Arc::new(Scaled::random(&mut rng, &p));
        for standardized in [false, true] {
            out.push(scenario!(format!("restore{i}-{standardized}-{kind}-{}", label(&p)), if t { 300 } else { 60 }, OPS,
                |e, p, s| side => side::restore(e, &p, &s, standardized)));
        }
        if m > 0 {
            let zero: Vec<bool> = (0..2 * n).map(|_| rng.chance(1, 4)).collect();
            let zero = Arc::new(zero);
            out.push(scenario!(format!("back{i}-{kind}-{}", label(&p)), if t { 300 } else { 60 }, OPS,
                |e, p, s, zero| side => side::scaled_back(e, &p, &s, &zero)));
            out.push(scenario!(format!("forward{i}-{kind}-{}", label(&p)), if t { 300 } else { 60 }, OPS,
                |e, p, s| side => side::scaled_forward(e, &p, &s)));
        }
    }
    // No factors at all
    for m in 0..3usize {
        let mut p = program(&mut rng, 2, m, false);
        for r in &mut p.rows {
            *r = (r.0, vec![V::K(1), V::K(-1)], V::K(1), V::K(1));
        }
        for v in &mut p.vars {
            *v = GVar { lower: Some(V::K(0)), upper: None, cost: V::K(1), integer: false };
        }
        let p = Arc::new(p);
        let mut s = Scaled::random(&mut rng, &p);
        s.row_units = vec![(1, 1); m];
        s.column_units = vec![(1, 1); 2];
        let s = Arc::new(s);
        out.push(scenario!(format!("units{m}"), 60, OPS, |e, p, s| side => side::restore(e, &p, &s, false)));
    }
    let mut count = 0;
    while count < if t { 300 } else { 90 } {
        let n = rng.range(1, if t { 4 } else { 3 }) as usize;
        let m = rng.range(1, if t { 4 } else { 3 }) as usize;
        let max = rng.chance(1, 3);
        let base = program(&mut rng, n, m, max);
        let s = Scaled::random(&mut rng, &base);
        let a = s.std_matrix(&base);
        if a[0].len() > 11 || rank(&a) < a.len() {
            continue;
        }
        let bs = Bases::new(a, 5000);
        if bs.bases.len() > if t { 300 } else { 70 } {
            continue;
        }
        let (bs, s) = (Arc::new(bs), Arc::new(s));
        for kind in ["c", "bl"] {
            let p = Arc::new(symbolic(&mut rng, base.clone(), kind));
            for presolve in [false, true] {
                let lu = rng.chance(1, 2);
                out.push(scenario!(format!("pipeline{count}-{presolve}-{}-{kind}-{}", engine(lu), label(&p)), if t { 300 } else { 40 }, OPS,
                    |e, p, s, bs| side => side::scaled_pipeline(e, &p, &s, &bs, presolve, lu)));
            }
        }
        count += 1;
    }
    for s in &mut out {
        s.partial = true;
    }
    out
}

fn describe(req: &Request) -> (Vec<&'static str>, String, Vec<&'static str>) {
    let t = req.thorough();
    let f = vec![
        "<GeneralForm as Scalable>::{scale, scale_back} (rational implementation), Scaling::scale_back",
        "GeneralForm::factorize, GeneralFormFactorization::*, combine_factors, scale",
        "GeneralForm::{standardize, derive_matrix_data, compute_full_solution_with_reduced_solution} to observe the scaled program, presolve and both engines in the pipelines",
    ];
    let bounds = format!(
        "programs of 1-{} variables of every bound kind and 0-{0} rows of every kind, fixed coefficients with factors 2, 3 and 5; right-hand sides, bounds, costs and part of the coefficients symbolic, each with an arbitrary partial factorization with exponents in -2..3; all points; whole solves of programs of 1-{} variables and rows with all costs, or all right-hand sides and bounds",
        if t { 5 } else { 4 }, if t { 4 } else { 3 }
    );
    (f, bounds, vec![
        "the numeric type is replaced by rational functions over the inputs with the same field laws; the code is generic in it",
        "the factors that are found in an input are part of the scenario, and not connected to its value: any partial factorization is allowed by the trait",
        "lower bounds are at most upper bounds, ranges are nonnegative",
    ])
}

fn main() {
    main_entry(Family { scenarios, describe })
}
