// Programs in general form: standardization, solving and reporting in terms of the original program.
use relp::algorithm::two_phase::matrix_provider::column::Column as GeneralColumn;
use relp::data::linear_program::elements::{LinearProgramType, Objective, RangedConstraintRelation};
use relp::data::linear_program::general_form::GeneralForm;
use relp::data::linear_program::solution::Solution;
use relp_num::NonZero;

/// The program as written down.
pub struct Gp {
    pub cfg: GCfg,
    pub a: Vec<Vec<N>>,
    pub b: Vec<N>,
    pub r: Vec<N>,
    pub lo: Vec<Option<N>>,
    pub up: Vec<Option<N>>,
    /// distance between the bounds
    pub width: Vec<Option<N>>,
    pub c: Vec<N>,
    pub fixed: N,
    /// The names, if they're not the usual ones
    pub named: Option<Vec<String>>,
}
impl Gp {
    pub fn new(e: &E, p: &GCfg) -> Gp {
        let lo: Vec<Option<N>> = p.vars.iter().map(|v| v.lower.as_ref().map(|x| input(e, x))).collect();
        let width: Vec<Option<N>> = p.vars.iter().map(|v| v.upper.as_ref().map(|x| input(e, x))).collect();
        let up = lo
            .iter()
            .zip(&width)
            .map(|(l, w)| match (l, w) {
                (Some(l), Some(w)) => Some(l.clone() + w),
                (None, Some(u)) => Some(u.clone()),
                _ => None,
            })
            .collect();
        let gp = Gp {
            a: p.rows.iter().map(|r| r.1.iter().map(|v| input(e, v)).collect()).collect(),
            b: p.rows.iter().map(|r| input(e, &r.2)).collect(),
            r: p.rows.iter().map(|r| if r.0 == Rk::Range { input(e, &r.3) } else { k(0) }).collect(),
            c: p.vars.iter().map(|v| input(e, &v.cost)).collect(),
            fixed: input(e, &p.fixed),
            named: None,
            lo,
            up,
            width,
            cfg: p.clone(),
        };
        if std::env::var("VERIF_SHOW").is_ok() {
            gp.show();
        }
        gp
    }
    fn show(&self) {
        for i in 0..self.a.len() {
            eprintln!("row {:?} {:?} b {:?} r {:?}", self.cfg.rows[i].0, self.a[i], self.b[i], self.r[i]);
        }
        for j in 0..self.n() {
            eprintln!("var {j} cost {:?} lower {:?} upper {:?}", self.c[j], self.lo[j], self.up[j]);
        }
    }
    pub fn n(&self) -> usize {
        self.c.len()
    }
    pub fn names(&self) -> Vec<String> {
        self.named.clone().unwrap_or_else(|| (0..self.n()).map(|j| format!("x{j}")).collect())
    }
    pub fn general(&self) -> GeneralForm<N> {
        let (m, n) = (self.a.len(), self.n());
        let columns = (0..n)
            .map(|j| (0..m).filter(|&i| self.a[i][j].is_not_zero()).map(|i| (i, self.a[i][j].clone())).collect::<Vec<_>>())
            .collect();
        GeneralForm::new(
            if self.cfg.maximize { Objective::Maximize } else { Objective::Minimize },
            ColumnMajor::new(columns, m, n),
            (0..m)
                .map(|i| match self.cfg.rows[i].0 {
                    Rk::Eq => RangedConstraintRelation::Equal,
                    Rk::Range => RangedConstraintRelation::Range(self.r[i].clone()),
                    Rk::Le => RangedConstraintRelation::Less,
                    Rk::Ge => RangedConstraintRelation::Greater,
                })
                .collect(),
            DenseVector::new(self.b.clone(), m),
            (0..n)
                .map(|j| Variable {
                    variable_type: if self.cfg.vars[j].integer { VariableType::Integer } else { VariableType::Continuous },
                    cost: self.c[j].clone(),
                    lower_bound: self.lo[j].clone(),
                    upper_bound: self.up[j].clone(),
                    shift: k(0),
                    flipped: false,
                })
                .collect(),
            self.names(),
            self.fixed.clone(),
        )
    }
    pub fn feasible_parts(&self, x: &[N]) -> Vec<F> {
        let mut v = vec![];
        for j in 0..self.n() {
            if let Some(l) = &self.lo[j] {
                v.push(le(l, &x[j]));
            }
            if let Some(u) = &self.up[j] {
                v.push(le(&x[j], u));
            }
        }
        for i in 0..self.a.len() {
            let act = dot(&self.a[i], x);
            match self.cfg.rows[i].0 {
                Rk::Eq => v.push(eq(&act, &self.b[i])),
                Rk::Le => v.push(le(&act, &self.b[i])),
                Rk::Ge => v.push(le(&self.b[i], &act)),
                Rk::Range => {
                    v.push(le(&act, &self.b[i]));
                    v.push(le(&(self.b[i].clone() - &self.r[i]), &act));
                }
            }
        }
        v
    }
    pub fn feasible(&self, x: &[N]) -> F {
        Fm::And(self.feasible_parts(x))
    }
    pub fn objective(&self, x: &[N]) -> N {
        dot(&self.c, x) + &self.fixed
    }
    /// The value reported after solving; that of the equivalent minimization program.
    pub fn reports(&self, value: &N, x: &[N]) -> F {
        let z = self.objective(x);
        eq(value, &if self.cfg.maximize { -z } else { z })
    }
    /// Offset of a variable in the equality form.
    fn offset(&self, j: usize) -> N {
        match (&self.lo[j], &self.up[j]) {
            (Some(l), _) => l.clone(),
            (None, Some(u)) => u.clone(),
            (None, None) => k(0),
        }
    }
    /// Right-hand side and (to be minimized) costs of the equality form of the configuration.
    pub fn oracle<'a>(&self, bs: &'a Bases) -> Oracle<'a> {
        let off: Vec<N> = (0..self.n()).map(|j| self.offset(j)).collect();
        let mut b: Vec<N> = (0..self.a.len()).map(|i| self.b[i].clone() - dot(&self.a[i], &off)).collect();
        for j in 0..self.n() {
            if self.lo[j].is_some() {
                b.extend(self.width[j].clone());
            }
        }
        for i in 0..self.a.len() {
            if self.cfg.rows[i].0 == Rk::Range {
                b.push(self.r[i].clone());
            }
        }
        let mut c: Vec<N> = self.cfg.parts().iter().map(|&(j, s)| k(if self.cfg.maximize { -s } else { s }) * &self.c[j]).collect();
        c.resize(bs.n, k(0));
        Oracle { bs, b, c }
    }
    /// Value of the equality form's objective when the program's objective has this value.
    pub fn std_value(&self, objective: &N) -> N {
        let off: Vec<N> = (0..self.n()).map(|j| self.offset(j)).collect();
        let z = objective.clone() - &self.fixed - dot(&self.c, &off);
        if self.cfg.maximize { -z } else { z }
    }
}

/// The reported values in the order of the variables; fails if the names are not those of the program.
fn values(e: &E, tag: &str, p: &Gp, s: &Solution<N>) -> Option<Vec<N>> {
    let ok = s.solution_values.len() == p.n() && s.solution_values.iter().zip(p.names()).all(|(a, b)| a.0 == b);
    e.prove(&format!("{tag}every variable is reported by name"), Fm::bool(ok));
    ok.then(|| s.solution_values.iter().map(|x| x.1.clone()).collect())
}

fn sparse(v: &[N]) -> SparseVector<N, N> {
    SparseVector::new(v.iter().enumerate().filter(|x| x.1.is_not_zero()).map(|(j, x)| (j, x.clone())).collect(), v.len())
}

/// Dense columns of the canonical form.
fn canonical_columns(d: &MatrixData<'_, N>) -> Vec<Vec<N>> {
    let m = d.nr_rows();
    (0..d.nr_columns())
        .map(|j| {
            let mut v = vec![k(0); m];
            for (i, x) in GeneralColumn::iter(&d.column(j)) {
                v[i] = x.clone();
            }
            v
        })
        .collect()
}

/// A point of the general form, in the nonnegative variables after standardization.
fn image(e: &E, p: &Gp, x: &[N]) -> Vec<N> {
    let mut y = vec![];
    let mut negative = vec![];
    for j in 0..p.n() {
        match (&p.lo[j], &p.up[j]) {
            (Some(l), _) => y.push(x[j].clone() - l),
            (None, Some(u)) => y.push(u.clone() - &x[j]),
            (None, None) => {
                if e.split(&x[j], POS | ZER) {
                    y.push(x[j].clone());
                    negative.push(k(0));
                } else {
                    y.push(k(0));
                    negative.push(-x[j].clone());
                }
            }
        }
    }
    y.extend(negative);
    y
}

fn canonical_cost(d: &MatrixData<'_, N>, y: &[N]) -> N {
    let mut s = k(0);
    for (j, y) in y.iter().enumerate() {
        if let Some(c) = d.cost_value(j) {
            s += c.clone() * y;
        }
    }
    s
}

/// Values of all variables of the canonical form, given the first ones.
fn complete(cols: &[Vec<N>], rhs: &[N], main: &[N]) -> Vec<N> {
    // Slacks: every remaining column starts in a row that has no other undetermined slack; they are found
    // from the rows, for each of which at most one slack is unknown at a time.
    let m = rhs.len();
    let mut y: Vec<Option<N>> = main.iter().cloned().map(Some).collect();
    y.resize(cols.len(), None);
    loop {
        let mut progress = false;
        for i in 0..m {
            let unknown: Vec<usize> = (0..cols.len()).filter(|&j| y[j].is_none() && cols[j][i].is_not_zero()).collect();
            if unknown.len() == 1 {
                let mut rest = rhs[i].clone();
                for j in 0..cols.len() {
                    if let Some(v) = &y[j] {
                        rest -= cols[j][i].clone() * v;
                    }
                }
                y[unknown[0]] = Some(rest / &cols[unknown[0]][i]);
                progress = true;
            }
        }
        if !progress {
            break;
        }
    }
    y.into_iter().map(|v| v.unwrap_or(k(0))).collect()
}

/// Every feasible point has a counterpart.
pub fn g01_forward(e: &E, cfg: &GCfg) {
    let p = Gp::new(e, cfg);
    forward(e, &p, p.general());
}
pub fn forward(e: &E, p: &Gp, mut g: GeneralForm<N>) {
    let cfg = &p.cfg;
    let counts = g.standardize();
    let d = g.derive_matrix_data(counts);
    let cols = canonical_columns(&d);
    let rhs: Vec<N> = d.right_hand_side().into_iter().collect();
    e.prove("the canonical right-hand side is nonnegative", Fm::And(rhs.iter().map(ge0).collect()));
    let x: Vec<N> = (0..p.n()).map(|j| e.var(&format!("x{j}"))).collect();
    e.assume(p.feasible(&x));
    let main = image(e, p, &x);
    e.outcome("forward");
    if g.nr_variables() != main.len() || g.nr_constraints() != p.a.len() {
        return e.prove("number of variables and constraints", Fm::F);
    }
    let m = d.nr_rows();
    let y = complete(&cols, &rhs, &main);
    for i in 0..m {
        let row: Vec<N> = cols.iter().map(|c| c[i].clone()).collect();
        e.prove("the counterpart satisfies the canonical rows", eq(&dot(&row, &y), &rhs[i]));
    }
    e.prove("the counterpart is nonnegative", Fm::And(y.iter().map(ge0).collect()));
    let zero: Vec<N> = (0..p.n()).map(|j| p.offset(j)).collect();
    let gap = p.objective(&x) - p.objective(&zero);
    e.prove("the cost corresponds", eq(&canonical_cost(&d, &y), &if cfg.maximize { -gap } else { gap }));
    let reduced = sparse(&main);
    let s = g.compute_full_solution_with_reduced_solution(reduced);
    if let Some(back) = values(e, "", p, &s) {
        e.prove("mapping the counterpart back gives the point", Fm::And(back.iter().zip(&x).map(|(a, b)| eq(a, b)).collect()));
    }
}

/// Every point of the canonical form maps back; `zero` is the set of variables that are zero.
pub fn g01_backward(e: &E, cfg: &GCfg, zero: &[bool], what: u8) {
    let p = Gp::new(e, cfg);
    backward(e, &p, p.general(), zero, what);
}
pub fn backward(e: &E, p: &Gp, mut g: GeneralForm<N>, zero: &[bool], what: u8) {
    let cfg = &p.cfg;
    let counts = g.standardize();
    let d = g.derive_matrix_data(counts);
    let cols = canonical_columns(&d);
    let rhs: Vec<N> = d.right_hand_side().into_iter().collect();
    let n = g.nr_variables();
    let mut y = vec![];
    for j in 0..cols.len() {
        if j < n && zero.get(j).copied().unwrap_or(false) {
            y.push(k(0));
            continue;
        }
        let v = e.var(&format!("y{j}"));
        e.assume(Fm::Sg(v.clone(), if j < n { POS } else { POS | ZER }));
        y.push(v);
    }
    // The rows as assumption
    let mut f = vec![];
    for i in 0..d.nr_rows() {
        let row: Vec<N> = cols.iter().map(|c| c[i].clone()).collect();
        f.push(eq(&dot(&row, &y), &rhs[i]));
    }
    let cost = canonical_cost(&d, &y);
    let reduced = sparse(&y[..n]);
    let s = g.compute_full_solution_with_reduced_solution(reduced);
    e.outcome("backward");
    let Some(x) = values(e, "", p, &s) else { return };
    if what & 1 != 0 {
        // One at a time
        for part in p.feasible_parts(&x) {
            let f: Vec<F> = f.iter().map(copy).collect();
            e.prove("the point satisfies the rows and bounds", Fm::And(f).implies(part));
        }
        let zero: Vec<N> = (0..p.n()).map(|j| p.offset(j)).collect();
        let gap = p.objective(&x) - p.objective(&zero);
        e.prove("the cost corresponds", eq(&cost, &if cfg.maximize { -gap } else { gap }));
    }
    if what & 2 != 0 {
        e.prove("the objective value is that of the point", p.reports(&s.objective_value, &x));
    }
}
fn copy(f: &F) -> F {
    match f {
        Fm::T => Fm::T,
        Fm::F => Fm::F,
        Fm::Sg(n, m) => Fm::Sg(n.clone(), *m),
        Fm::And(v) => Fm::And(v.iter().map(copy).collect()),
        Fm::Or(v) => Fm::Or(v.iter().map(copy).collect()),
        Fm::Not(f) => Fm::Not(Box::new(copy(f))),
    }
}
enum Answer {
    Infeasible,
    Unbounded,
    Solution(Solution<N>),
}

/// Standardize and solve.
fn solve_general(mut g: GeneralForm<N>, lu: bool) -> Answer {
    let counts = g.standardize();
    let (result, reduced) = {
        let d = g.derive_matrix_data(counts);
        match solve(&d, lu) {
            OptimizationResult::Infeasible => (Some(Answer::Infeasible), None),
            OptimizationResult::Unbounded => (Some(Answer::Unbounded), None),
            OptimizationResult::FiniteOptimum(x) => (None, Some(d.reconstruct_solution(x))),
        }
    };
    match (result, reduced) {
        (Some(r), _) => r,
        (None, Some(x)) => Answer::Solution(g.compute_full_solution_with_reduced_solution(x)),
        _ => unreachable!(),
    }
}

/// what: 1 feasibility of the reported point, 2 its objective value, 4 optimality, 8 the verdicts
fn judge_general(e: &E, tag: &str, p: &Gp, bs: &Bases, r: &Answer, what: u8) {
    let o = p.oracle(bs);
    match r {
        Answer::Infeasible => {
            e.outcome("infeasible");
            if what & 8 != 0 {
                e.prove(&format!("{tag}infeasible reported but a feasible point exists"), o.feasible().not());
            }
        }
        Answer::Unbounded => {
            e.outcome("unbounded");
            if what & 8 != 0 {
                e.prove(&format!("{tag}unbounded reported wrongly"), o.unbounded());
            }
        }
        Answer::Solution(s) => {
            e.outcome("optimum");
            let Some(x) = values(e, tag, p, s) else { return };
            if what & 1 != 0 {
                e.prove(&format!("{tag}the point satisfies the rows and bounds"), p.feasible(&x));
            }
            if what & 2 != 0 {
                e.prove(&format!("{tag}the objective value is that of the point"), p.reports(&s.objective_value, &x));
            }
            if what & 16 != 0 {
                e.prove(&format!("{tag}the objective value has its own sign"), eq(&s.objective_value, &p.objective(&x)));
            }
            if what & 4 != 0 {
                let z = p.std_value(&p.objective(&x));
                e.prove(&format!("{tag}the point has the best objective value"), o.optimal_value(&z));
            }
        }
    }
}

pub fn solve_and_judge(e: &E, cfg: &GCfg, bs: &Bases, lu: bool, what: u8) {
    let p = Gp::new(e, cfg);
    let r = solve_general(p.general(), lu);
    judge_general(e, "", &p, bs, &r, what);
}

/// The whole pipeline.
pub fn pipeline(e: &E, cfg: &GCfg, bs: &Bases, lu: bool) {
    let p = Gp::new(e, cfg);
    let mut g = p.general();
    let mut done = true;
    let r = match g.presolve() {
        Ok(()) => {
            done = false;
            solve_general(g, lu)
        }
        Err(LinearProgramType::FiniteOptimum(s)) => {
            e.outcome("presolved");
            Answer::Solution(s)
        }
        Err(LinearProgramType::Infeasible) => {
            e.outcome("presolve infeasible");
            Answer::Infeasible
        }
        Err(LinearProgramType::Unbounded) => {
            // Whether there are feasible points has not been decided at this time
            e.outcome("presolve unbounded");
            let o = p.oracle(bs);
            return e.prove("presolve reports unbounded but the objective has a best value", Fm::Or(vec![o.feasible().not(), o.improving_ray()]));
        }
    };
    match &r {
        // Nothing was left to be solved
        Answer::Solution(s) if done => {
            judge_general(e, "", &p, bs, &r, 5);
            e.prove("the objective value of a presolved program is that of the point", match values(e, "", &p, s) {
                Some(x) => eq(&s.objective_value, &p.objective(&x)),
                None => Fm::F,
            });
        }
        _ => judge_general(e, "", &p, bs, &r, 15),
    }
}

/// The whole pipeline for a program with fixed costs that is not unbounded; judged with all points.
pub fn pipeline_points(e: &E, cfg: &GCfg, presolve: bool, lu: bool, what: u8) {
    let p = Gp::new(e, cfg);
    let mut g = p.general();
    let mut done = false;
    let r = match if presolve { g.presolve() } else { Ok(()) } {
        Ok(()) => solve_general(g, lu),
        Err(end) => {
            done = true;
            match end {
                LinearProgramType::FiniteOptimum(s) => Answer::Solution(s),
                LinearProgramType::Infeasible => Answer::Infeasible,
                LinearProgramType::Unbounded => Answer::Unbounded,
            }
        }
    };
    let z: Vec<N> = (0..p.n()).map(|j| e.var(&format!("x{j}"))).collect();
    match &r {
        Answer::Infeasible => {
            e.outcome(if done { "presolve infeasible" } else { "infeasible" });
            if what & 8 != 0 {
                e.prove("infeasible reported but the point is feasible", p.feasible(&z).not());
            }
        }
        Answer::Unbounded => {
            e.outcome("unbounded");
            if what & 8 != 0 {
                e.prove("unbounded reported although no direction improves the objective", Fm::F);
            }
        }
        Answer::Solution(s) => {
            e.outcome(if done { "presolved" } else { "optimum" });
            let Some(x) = values(e, "", &p, s) else { return };
            if what & 1 != 0 {
                for part in p.feasible_parts(&x) {
                    e.prove("the point satisfies the rows and bounds", part);
                }
            }
            let value = p.objective(&x);
            if what & 2 != 0 {
                e.prove("the objective value is that of the point", if done { eq(&s.objective_value, &value) } else { p.reports(&s.objective_value, &x) });
            }
            if what & 4 != 0 {
                let other = p.objective(&z);
                e.prove("a feasible point is better", Fm::Or(vec![p.feasible(&z).not(), if p.cfg.maximize { le(&other, &value) } else { le(&value, &other) }]));
            }
        }
    }
}
