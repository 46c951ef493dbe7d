// Presolving programs in general form.

/// Presolve `times` times.
fn presolved(p: &Gp, times: usize) -> Result<GeneralForm<N>, LinearProgramType<N>> {
    let mut g = p.general();
    for _ in 0..times {
        g.presolve()?;
    }
    Ok(g)
}

/// Every feasible point of the program has a value (to be minimized) that satisfies `good`.
fn all_points(e: &E, p: &Gp, bs: &Bases, what: &str, unbounded: F, good: impl Fn(&N) -> F) {
    let sign = k(if p.cfg.maximize { -1 } else { 1 });
    if p.cfg.vars.iter().all(|v| matches!(v.cost, V::K(_))) {
        let x: Vec<N> = (0..p.n()).map(|j| e.var(&format!("x{j}"))).collect();
        return e.prove(what, Fm::Or(vec![p.feasible(&x).not(), good(&(sign * p.objective(&x))), unbounded]));
    }
    // Products of costs and coordinates: the extreme points and directions
    let o = p.oracle(bs);
    let off: Vec<N> = (0..p.n()).map(|j| p.offset(j)).collect();
    let base = sign * p.objective(&off);
    for (cols, inv) in &bs.bases {
        let xb = o.basic(inv);
        let cb: Vec<N> = cols.iter().map(|&j| o.c[j].clone()).collect();
        let at = Fm::And(vec![o.consistent(), o.feasible_basis(inv)]);
        e.prove(what, Fm::Or(vec![at.not(), good(&(base.clone() + dot(&cb, &xb))), copy(&unbounded)]));
    }
    e.prove(what, Fm::Or(vec![o.feasible().not(), o.improving_ray().not(), unbounded]));
}

/// A final answer of presolve is right. 1: verdicts, 2: nothing is better, 4: the point.
fn judge_end(e: &E, p: &Gp, bs: &Bases, end: LinearProgramType<N>, what: u8) {
    match end {
        LinearProgramType::Infeasible => {
            e.outcome("infeasible");
            if what & 1 != 0 {
                let x: Vec<N> = (0..p.n()).map(|j| e.var(&format!("x{j}"))).collect();
                e.prove("presolve reports infeasible but the point is feasible", p.feasible(&x).not());
            }
        }
        LinearProgramType::Unbounded => {
            e.outcome("unbounded");
            if what & 1 != 0 {
                let o = p.oracle(bs);
                e.prove("presolve reports unbounded but the objective has a best value", Fm::Or(vec![o.feasible().not(), o.improving_ray()]));
            }
        }
        LinearProgramType::FiniteOptimum(s) => {
            e.outcome("solved");
            let Some(v) = values(e, "", p, &s) else { return };
            let z = p.objective(&v);
            if what & 4 != 0 {
                for part in p.feasible_parts(&v) {
                    e.prove("the solution found by presolve satisfies the rows and bounds", part);
                }
                e.prove("the objective value found by presolve is that of the solution", eq(&s.objective_value, &z));
            }
            if what & 2 != 0 {
                let z = if p.cfg.maximize { -z } else { z };
                all_points(e, p, bs, "a feasible point is better than the solution found by presolve", Fm::F, |w| le(&z, w));
            }
        }
    }
}

/// Presolve and judge the result; `zero` are coordinates of the canonical point that are zero.
pub fn presolve_case(e: &E, cfg: &GCfg, bs: &Bases, times: usize, zero: &[bool], what: u8) {
    let p = Gp::new(e, cfg);
    let mut g = match presolved(&p, times) {
        Ok(g) => g,
        Err(end) => return judge_end(e, &p, bs, end, what),
    };
    e.outcome("reduced");
    if what & 6 == 0 {
        return;
    }
    let counts = g.standardize();
    let n = g.nr_variables();
    let d = g.derive_matrix_data(counts);
    let cols = canonical_columns(&d);
    let m = d.nr_rows();
    let rhs: Vec<N> = d.right_hand_side().into_iter().collect();
    let costs: Vec<N> = (0..cols.len()).map(|j| d.cost_value(j).cloned().unwrap_or(k(0))).collect();
    if what & 2 != 0 {
        // The value in the origin of the canonical form
        let Ok(mut h) = presolved(&p, times) else { return };
        h.standardize();
        let start = h.compute_full_solution_with_reduced_solution(sparse(&vec![k(0); n])).objective_value;
        let a: Vec<Vec<Q>> = (0..m).map(|i| cols.iter().map(|c| fixed_value(&c[i])).collect()).collect();
        let reduced = Bases::new(a, 5000);
        let o = Oracle { bs: &reduced, b: rhs.clone(), c: costs.clone() };
        all_points(e, &p, bs, "no point of the presolved program is as good as a feasible point", o.unbounded(), |w| {
            let mut any = vec![];
            for (cols, inv) in &reduced.bases {
                let xb = o.basic(inv);
                let cb: Vec<N> = cols.iter().map(|&j| o.c[j].clone()).collect();
                any.push(Fm::And(vec![o.feasible_basis(inv), le(&(start.clone() + dot(&cb, &xb)), w)]));
            }
            Fm::And(vec![o.consistent(), Fm::Or(any)])
        });
    }
    if what & 4 != 0 {
        drop(d);
        extended(e, &p, g, zero, &cols, &rhs);
    }
}

/// Points of the presolved program are extended to points of the program.
fn extended(e: &E, p: &Gp, g: GeneralForm<N>, zero: &[bool], cols: &[Vec<N>], rhs: &[N]) {
    let (m, n) = (rhs.len(), g.nr_variables());
    let mut y = vec![];
    for j in 0..cols.len() {
        if j < n && zero.get(j).copied().unwrap_or(false) {
            y.push(k(0));
            continue;
        }
        let v = e.var(&format!("y{j}"));
        e.assume(Fm::Sg(v.clone(), if j < n { POS } else { POS | ZER }));
        y.push(v);
    }
    for i in 0..m {
        let row: Vec<N> = cols.iter().map(|c| c[i].clone()).collect();
        e.assume(eq(&dot(&row, &y), &rhs[i]));
    }
    let s = g.compute_full_solution_with_reduced_solution(sparse(&y[..n]));
    let Some(x) = values(e, "", p, &s) else { return };
    for part in p.feasible_parts(&x) {
        e.prove("the extended point satisfies the rows and bounds", part);
    }
    e.prove("the objective value is that of the extended point", p.reports(&s.objective_value, &x));
}
