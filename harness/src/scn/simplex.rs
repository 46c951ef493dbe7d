use relp::algorithm::two_phase::matrix_provider::matrix_data::MatrixData;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::Carry;
use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, SparseMatrix};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::VariableType;
use relp::data::linear_program::general_form::Variable;

pub struct Lp {
    pub constraints: SparseMatrix<N, N, ColumnMajor>,
    pub b: DenseVector<N>,
    pub r: Vec<N>,
    pub u: Vec<Option<N>>,
    pub c: Vec<N>,
    pub variables: Vec<Variable<N>>,
    pub ne: usize,
    pub nr: usize,
    pub nu: usize,
    pub nl: usize,
    pub n: usize,
}

impl Lp {
    pub fn new(e: &E, p: &Canon) -> Lp {
        let b: Vec<N> = p.b.iter().map(|v| input(e, v)).collect();
        let r: Vec<N> = p.r.iter().map(|v| input(e, v)).collect();
        let u: Vec<Option<N>> = p.u.iter().map(|v| v.as_ref().map(|v| input(e, v))).collect();
        let c: Vec<N> = p.c.iter().map(|v| input(e, v)).collect();
        let columns = (0..p.n)
            .map(|j| {
                p.rows
                    .iter()
                    .enumerate()
                    .filter(|(_, r)| r.1[j] != 0)
                    .map(|(i, r)| (i, k(r.1[j])))
                    .collect::<Vec<_>>()
            })
            .collect::<Vec<_>>();
        let m = p.rows.len();
        let variables = (0..p.n)
            .map(|j| Variable {
                variable_type: VariableType::Continuous,
                cost: c[j].clone(),
                lower_bound: Some(k(0)),
                upper_bound: u[j].clone(),
                shift: k(0),
                flipped: false,
            })
            .collect();
        Lp {
            constraints: ColumnMajor::new(columns, m, p.n),
            b: DenseVector::new(b, m),
            r,
            u,
            c,
            variables,
            ne: p.count(Rk::Eq),
            nr: p.count(Rk::Range),
            nu: p.count(Rk::Le),
            nl: p.count(Rk::Ge),
            n: p.n,
        }
    }
    pub fn data(&self) -> MatrixData<'_, N> {
        MatrixData::new(
            &self.constraints,
            &self.b,
            self.r.iter().collect(),
            self.ne,
            self.nr,
            self.nu,
            self.nl,
            &self.variables,
        )
    }
    /// Right-hand side and cost of the documented equality form.
    pub fn std_rhs(&self) -> Vec<N> {
        let mut b: Vec<N> = self.b.iter().cloned().collect();
        b.extend(self.u.iter().flatten().cloned());
        b.extend(self.r.iter().cloned());
        b
    }
    pub fn std_cost(&self, total: usize) -> Vec<N> {
        let mut c = self.c.clone();
        c.resize(total, k(0));
        c
    }
}

fn dense(x: &SparseVector<N, N>, len: usize) -> Vec<N> {
    let mut v = vec![k(0); len];
    for (j, value) in x.iter() {
        v[j] = value.clone();
    }
    v
}

fn solve(data: &MatrixData<'_, N>, lu: bool) -> OptimizationResult<N> {
    if lu {
        data.solve_relaxation::<Carry<N, LUDecomposition<N>>>()
    } else {
        data.solve_relaxation::<Carry<N, BasisInverseRows<N>>>()
    }
}

pub fn verdict(e: &E, prop: &str, cfg: &Canon, bs: &Bases, lu: bool) {
    let lp = Lp::new(e, cfg);
    let data = lp.data();
    let result = solve(&data, lu);
    let o = Oracle { bs, b: lp.std_rhs(), c: lp.std_cost(bs.n) };
    match result {
        OptimizationResult::Infeasible => {
            e.outcome("infeasible");
            if prop == "S03" {
                e.prove("infeasible reported but a feasible point exists", o.feasible().not());
            }
        }
        OptimizationResult::Unbounded => {
            e.outcome("unbounded");
            match prop {
                "S03" => e.prove("unbounded reported but there is no feasible point", o.feasible()),
                "S04" => e.prove("unbounded reported but the cost is bounded", o.unbounded()),
                _ => {}
            }
        }
        OptimizationResult::FiniteOptimum(x) => {
            e.outcome("optimum");
            if prop == "S01" {
                if x.len() != data.nr_columns() {
                    e.prove("solution has the wrong length", Fm::F);
                }
                let full = dense(&x, bs.n);
                e.prove("reported optimum violates the equality form", o.is_point(&full));
                // And in terms of the rows and bounds directly
                let sol = dense(&data.reconstruct_solution(x), cfg.n);
                let mut v: Vec<F> = sol.iter().map(ge0).collect();
                let mut ri = 0;
                for (i, (kind, row)) in cfg.rows.iter().enumerate() {
                    let row: Vec<Q> = row.iter().map(|&a| Q::int(a)).collect();
                    let act = dot_q(&row, &sol);
                    match kind {
                        Rk::Eq => v.push(eq(&act, &lp.b[i])),
                        Rk::Le => v.push(le(&act, &lp.b[i])),
                        Rk::Ge => v.push(le(&lp.b[i], &act)),
                        Rk::Range => {
                            v.push(le(&act, &lp.b[i]));
                            v.push(le(&(lp.b[i].clone() - &lp.r[ri]), &act));
                            ri += 1;
                        }
                    }
                }
                for (xj, u) in sol.iter().zip(&lp.u) {
                    if let Some(u) = u {
                        v.push(le(xj, u));
                    }
                }
                e.prove("reported optimum violates a row or bound", Fm::And(v));
                return;
            }
            let full = dense(&x, bs.n);
            match prop {
                "S02" => e.prove2(
                    "a cheaper feasible point exists",
                    || o.optimal_vertex(&full),
                    || o.optimal_exact(&full),
                ),
                "S03" => e.prove("optimum reported but there is no feasible point", o.feasible()),
                "S04" => e.prove("optimum reported but the cost is unbounded", o.unbounded().not()),
                _ => {}
            }
        }
    }
}

/// Judged with all points instead of all bases, for programs that are too large for these; costs are fixed.
pub fn large(e: &E, prop: &str, cfg: &Canon, lu: bool) {
    let lp = Lp::new(e, cfg);
    let data = lp.data();
    let result = solve(&data, lu);
    let parts = |x: &[N]| -> Vec<F> {
        let mut v: Vec<F> = x.iter().map(ge0).collect();
        let mut ri = 0;
        for (i, (kind, row)) in cfg.rows.iter().enumerate() {
            let row: Vec<Q> = row.iter().map(|&a| Q::int(a)).collect();
            let act = dot_q(&row, x);
            match kind {
                Rk::Eq => v.push(eq(&act, &lp.b[i])),
                Rk::Le => v.push(le(&act, &lp.b[i])),
                Rk::Ge => v.push(le(&lp.b[i], &act)),
                Rk::Range => {
                    v.push(le(&act, &lp.b[i]));
                    v.push(le(&(lp.b[i].clone() - &lp.r[ri]), &act));
                    ri += 1;
                }
            }
        }
        for (xj, u) in x.iter().zip(&lp.u) {
            if let Some(u) = u {
                v.push(le(xj, u));
            }
        }
        v
    };
    let all = matches!(prop, "S05" | "S06");
    let any = |tag: &str| -> Vec<N> { (0..cfg.n).map(|j| e.var(&format!("{tag}{j}"))).collect() };
    match result {
        OptimizationResult::Infeasible => {
            e.outcome("infeasible");
            if prop == "S03" || all {
                e.prove("infeasible reported but the point is feasible", Fm::And(parts(&any("x"))).not());
            }
        }
        OptimizationResult::Unbounded => {
            e.outcome("unbounded");
            if prop == "S04" || all {
                // Multipliers of rows and bounds prove that there is a bound
                let m = cfg.rows.len();
                let y: Vec<N> = (0..m).map(|i| e.var(&format!("y{i}"))).collect();
                let mut v = vec![];
                for (i, (kind, _)) in cfg.rows.iter().enumerate() {
                    match kind {
                        Rk::Le => v.push(ge0(&-y[i].clone())),
                        Rk::Ge => v.push(ge0(&y[i])),
                        _ => {}
                    }
                }
                for j in 0..cfg.n {
                    if cfg.u[j].is_none() {
                        let column: Vec<Q> = cfg.rows.iter().map(|r| Q::int(r.1[j])).collect();
                        v.push(le(&dot_q(&column, &y), &lp.c[j]));
                    }
                }
                e.prove("unbounded reported but the cost is bounded", Fm::And(v).not());
            }
        }
        OptimizationResult::FiniteOptimum(x) => {
            e.outcome("optimum");
            let sol = dense(&data.reconstruct_solution(x), cfg.n);
            if matches!(prop, "S01" | "S03") || all {
                for part in parts(&sol) {
                    e.prove("reported optimum violates a row or bound", part);
                }
            }
            if matches!(prop, "S02" | "S04") || all {
                let x = any("x");
                e.prove("a cheaper feasible point exists", Fm::Or(vec![Fm::And(parts(&x)).not(), le(&dot(&lp.c, &sol), &dot(&lp.c, &x))]));
            }
        }
    }
}
