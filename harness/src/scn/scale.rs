// Scaling of programs in general form.
use relp::data::linear_program::general_form::{Scalable, Scaling};

/// The specialized implementation exists for this number.
fn really_scales<R>()
where
    R: relp_num::NonZeroFactorizable<Power = i32>
        + relp::data::linear_algebra::traits::SparseElement<R>
        + relp::data::linear_algebra::traits::SparseComparator
        + num_traits::One
        + std::ops::MulAssign<R::Factor>
        + std::ops::DivAssign<R::Factor>
        + std::ops::MulAssign<R>
        + std::ops::DivAssign<R>
        + for<'r> std::ops::MulAssign<&'r R::Factor>
        + for<'r> std::ops::DivAssign<&'r R::Factor>
        + for<'r> std::ops::MulAssign<&'r R>
        + for<'r> std::ops::DivAssign<&'r R>
        + for<'r> std::ops::Mul<&'r R, Output = R>,
    for<'r> &'r R: std::ops::Mul<&'r R, Output = R> + std::ops::Div<&'r R, Output = R>,
{
}

fn prepare(e: &E, cfg: &GCfg, s: &Scaled) -> Gp {
    really_scales::<N>();
    e.no_factors();
    let mut p = Gp::new(e, cfg);
    let unit = |u: (i64, i64)| nq(Q::new(u.0 as i128, u.1 as i128));
    for i in 0..p.a.len() {
        for j in 0..p.n() {
            if matches!(cfg.rows[i].1[j], V::K(_)) {
                p.a[i][j] = p.a[i][j].clone() * &unit(s.row_units[i]) * &unit(s.column_units[j]);
            } else {
                e.factors(&p.a[i][j], &s.entries[i][j]);
            }
        }
        if !matches!(cfg.rows[i].2, V::K(_)) {
            e.factors(&p.b[i], &s.rows[i]);
        }
    }
    for j in 0..p.n() {
        if !matches!(cfg.vars[j].cost, V::K(_)) {
            e.factors(&p.c[j], &s.cost[j]);
        }
        if let (Some(x), Some(v)) = (&p.lo[j], &cfg.vars[j].lower) {
            if !matches!(v, V::K(_)) {
                e.factors(x, &s.lower[j]);
            }
        }
        if let (Some(x), Some(v)) = (&p.up[j], &cfg.vars[j].upper) {
            if !matches!(v, V::K(_)) {
                e.factors(x, &s.upper[j]);
            }
        }
    }
    p
}

/// The column factors: what the entries of a vector are multiplied with.
fn column_factors(e: &E, scaling: &Scaling<N>, n: usize) -> Vec<N> {
    let mut ones = sparse(&vec![k(1); n]);
    scaling.scale_back(&mut ones);
    (0..n).map(|j| ones.get(j).cloned().unwrap_or(k(0))).collect()
}

/// Scaling and scaling back restores the program, before or after standardization.
pub fn restore(e: &E, cfg: &GCfg, s: &Scaled, standardized: bool) {
    let p = prepare(e, cfg, s);
    let mut g = p.general();
    if standardized {
        g.standardize();
    }
    let before = g.clone();
    let scaling = g.scale();
    e.outcome("scaled");
    g.scale_back(scaling);
    e.prove("scaling back restores the program", Fm::bool(g == before));
}

/// A second program, with the same points as the first except for the factors.
fn rescaled(p: &Gp, f: &[N]) -> Gp {
    let over = |v: &Vec<Option<N>>| v.iter().zip(f).map(|(x, f)| x.as_ref().map(|x| x.clone() / f)).collect::<Vec<_>>();
    Gp {
        cfg: p.cfg.clone(),
        a: p.a.clone(),
        b: p.b.clone(),
        r: p.r.clone(),
        lo: over(&p.lo),
        up: over(&p.up),
        width: over(&p.width),
        c: p.c.iter().zip(f).map(|(x, f)| x.clone() * f).collect(),
        fixed: p.fixed.clone(),
        named: p.named.clone(),
    }
}

/// Solutions of the scaled program, scaled back, are those of the program.
pub fn scaled_back(e: &E, cfg: &GCfg, s: &Scaled, zero: &[bool]) {
    let p = prepare(e, cfg, s);
    let mut g = p.general();
    let scaling = g.scale();
    let factors = column_factors(e, &scaling, p.n());
    e.prove("column factors are positive", Fm::And(factors.iter().map(|f| Fm::Sg(f.clone(), POS)).collect()));
    let counts = g.standardize();
    let d = g.derive_matrix_data(counts);
    let cols = canonical_columns(&d);
    let rhs: Vec<N> = d.right_hand_side().into_iter().collect();
    let n = g.nr_variables();
    let mut y = vec![];
    for j in 0..cols.len() {
        if j < n && zero.get(j).copied().unwrap_or(false) {
            y.push(k(0));
            continue;
        }
        let v = e.var(&format!("y{j}"));
        e.assume(Fm::Sg(v.clone(), if j < n { POS } else { POS | ZER }));
        y.push(v);
    }
    let mut f = vec![];
    for i in 0..d.nr_rows() {
        let row: Vec<N> = cols.iter().map(|c| c[i].clone()).collect();
        f.push(eq(&dot(&row, &y), &rhs[i]));
    }
    let cost = canonical_cost(&d, &y);
    let per_cost = cost_factor(&p, &d, &factors);
    // The solution of the scaled program, in terms of its own variables
    let z = g.compute_full_solution_with_reduced_solution(sparse(&y[..n]));
    e.outcome("scaled");
    let Some(z) = values(e, "", &p, &z) else { return };
    let mut x = sparse(&z);
    scaling.scale_back(&mut x);
    let x: Vec<N> = (0..p.n()).map(|j| x.get(j).cloned().unwrap_or(k(0))).collect();
    for part in p.feasible_parts(&x) {
        let f: Vec<F> = f.iter().map(copy).collect();
        e.prove("the point satisfies the rows and bounds", Fm::And(f).implies(part));
    }
    let zero: Vec<N> = (0..p.n()).map(|j| p.offset(j)).collect();
    let gap = p.objective(&x) - p.objective(&zero);
    let gap = if cfg.maximize { -gap } else { gap };
    if let Some(f) = per_cost {
        e.prove("the cost factor is positive", Fm::Sg(f.clone(), POS));
        e.prove("the cost is proportional", eq(&cost, &(f * &gap)));
    } else {
        e.prove("the cost is proportional", eq(&cost, &k(0)));
    }
}

/// Factor of the costs, from a variable that has costs. The first variables of the canonical form are those of
/// the program in the same order.
fn cost_factor(p: &Gp, d: &MatrixData<'_, N>, factors: &[N]) -> Option<N> {
    for j in 0..p.n() {
        if p.c[j].is_not_zero() {
            let flipped = p.lo[j].is_none() && p.up[j].is_some();
            let mut c = d.cost_value(j).cloned().unwrap_or(k(0));
            if flipped != p.cfg.maximize {
                c = -c;
            }
            return Some(c / &(p.c[j].clone() * &factors[j]));
        }
    }
    None
}

/// Every point of the program has a counterpart in the scaled program.
pub fn scaled_forward(e: &E, cfg: &GCfg, s: &Scaled) {
    let p = prepare(e, cfg, s);
    let mut g = p.general();
    let scaling = g.scale();
    let factors = column_factors(e, &scaling, p.n());
    let q = rescaled(&p, &factors);
    let counts = g.standardize();
    let d = g.derive_matrix_data(counts);
    let cols = canonical_columns(&d);
    let rhs: Vec<N> = d.right_hand_side().into_iter().collect();
    let x: Vec<N> = (0..p.n()).map(|j| e.var(&format!("x{j}"))).collect();
    e.assume(p.feasible(&x));
    let z: Vec<N> = x.iter().zip(&factors).map(|(x, f)| x.clone() / f).collect();
    let main = image(e, &q, &z);
    e.outcome("forward");
    let y = complete(&cols, &rhs, &main);
    for i in 0..d.nr_rows() {
        let row: Vec<N> = cols.iter().map(|c| c[i].clone()).collect();
        e.prove("the counterpart satisfies the canonical rows", eq(&dot(&row, &y), &rhs[i]));
    }
    e.prove("the counterpart is nonnegative", Fm::And(y.iter().map(ge0).collect()));
}

/// Scaling in the whole pipeline: after standardization, scaled back before the solution is reported.
pub fn scaled_pipeline(e: &E, cfg: &GCfg, s: &Scaled, bs: &Bases, presolve: bool, lu: bool) {
    let p = prepare(e, cfg, s);
    let mut g = p.general();
    if presolve {
        match g.presolve() {
            Ok(()) => {}
            // Nothing to be scaled
            Err(_) => return e.outcome("presolved"),
        }
    }
    let counts = g.standardize();
    let scaling = g.scale();
    let (result, reduced) = {
        let d = g.derive_matrix_data(counts);
        match solve(&d, lu) {
            OptimizationResult::Infeasible => (Some(Answer::Infeasible), None),
            OptimizationResult::Unbounded => (Some(Answer::Unbounded), None),
            OptimizationResult::FiniteOptimum(x) => (None, Some(d.reconstruct_solution(x))),
        }
    };
    let r = match (result, reduced) {
        (Some(r), _) => r,
        (None, Some(mut x)) => {
            scaling.scale_back(&mut x);
            g.scale_back(scaling);
            Answer::Solution(g.compute_full_solution_with_reduced_solution(x))
        }
        _ => unreachable!(),
    };
    judge_general(e, "", &p, bs, &r, 15);
}
