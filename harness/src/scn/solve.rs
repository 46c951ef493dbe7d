// Solving equality form programs through every kind of provider, engine and strategy.
use relp::algorithm::two_phase::phase_one::{FeasibilityComputeTrait, Rank, RankedFeasibilityResult};
use relp::algorithm::two_phase::phase_two;
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::RemoveRows;
use relp::algorithm::two_phase::strategy::pivot_rule::{
    FirstProfitable, FirstProfitableWithMemory, PivotRule, SteepestDescentAlongObjective, SteepestDescentAlongVariable,
};
use relp::algorithm::two_phase::tableau::inverse_maintenance::{ColumnComputationInfo, InverseMaintainer};
use relp::algorithm::two_phase::tableau::kind::non_artificial::NonArtificial;
use relp::algorithm::two_phase::tableau::Tableau;

type Lu = Carry<N, LUDecomposition<N>>;
type Rows = Carry<N, BasisInverseRows<N>>;

/// The verdict is right and a reported solution is feasible and optimal.
fn judge(e: &E, tag: &str, result: &OptimizationResult<N>, o: &Oracle) {
    match result {
        OptimizationResult::Infeasible => {
            e.outcome("infeasible");
            e.prove(&format!("{tag}infeasible reported but a feasible point exists"), o.feasible().not());
        }
        OptimizationResult::Unbounded => {
            e.outcome("unbounded");
            e.prove(&format!("{tag}unbounded reported wrongly"), o.unbounded());
        }
        OptimizationResult::FiniteOptimum(x) => {
            e.outcome("optimum");
            if x.len() != o.bs.n {
                e.prove(&format!("{tag}solution has the wrong length"), Fm::F);
                return;
            }
            let full = dense(x, o.bs.n);
            e.prove(&format!("{tag}reported optimum is not feasible"), o.is_point(&full));
            e.prove2(
                &format!("{tag}a cheaper feasible point exists"),
                || o.optimal_vertex(&full),
                || o.optimal_exact(&full),
            );
        }
    }
}

/// kind: 0 no initial basis, 1 partial, 2 full
fn solve_dense(d: &Dn, kind: u8, lu: bool) -> OptimizationResult<N> {
    match (kind, lu) {
        (0, true) => Plain(d).solve_relaxation::<Lu>(),
        (0, false) => Plain(d).solve_relaxation::<Rows>(),
        (1, true) => Part(d).solve_relaxation::<Lu>(),
        (1, false) => Part(d).solve_relaxation::<Rows>(),
        (_, true) => Full(d).solve_relaxation::<Lu>(),
        (_, false) => Full(d).solve_relaxation::<Rows>(),
    }
}

pub fn dense_verdict(e: &E, cfg: &EqCfg, bs: &Bases, kind: u8, lu: bool) {
    let d = Dn::new(e, cfg);
    let o = Oracle { bs, b: d.b.clone(), c: d.costs() };
    if kind == 2 {
        assume_start(e, &o, &cfg.pivots);
    }
    let r = solve_dense(&d, kind, lu);
    judge(e, "", &r, &o);
}

/// The supplied basis is feasible.
fn assume_start(e: &E, o: &Oracle, pivots: &[(usize, usize)]) {
    let mut cols: Vec<usize> = pivots.iter().map(|p| p.1).collect();
    cols.sort();
    let inv = &o.bs.bases.iter().find(|b| b.0 == cols).expect("start basis").1;
    e.assume(o.feasible_basis(inv));
}

/// Does not look at the answer: for the absence of panics and for termination.
pub fn dense_quiet(e: &E, cfg: &EqCfg, kind: u8, lu: bool) {
    let d = Dn::new(e, cfg);
    match solve_dense(&d, kind, lu) {
        OptimizationResult::Infeasible => e.outcome("infeasible"),
        OptimizationResult::Unbounded => e.outcome("unbounded"),
        OptimizationResult::FiniteOptimum(_) => e.outcome("optimum"),
    }
}
pub fn canon_quiet(e: &E, cfg: &Canon, lu: bool) {
    let lp = Lp::new(e, cfg);
    match solve(&lp.data(), lu) {
        OptimizationResult::Infeasible => e.outcome("infeasible"),
        OptimizationResult::Unbounded => e.outcome("unbounded"),
        OptimizationResult::FiniteOptimum(_) => e.outcome("optimum"),
    }
}
pub fn canon_judge(e: &E, cfg: &Canon, bs: &Bases, lu: bool) {
    let lp = Lp::new(e, cfg);
    let r = solve(&lp.data(), lu);
    judge(e, "", &r, &Oracle { bs, b: lp.std_rhs(), c: lp.std_cost(bs.n) });
}

macro_rules! with_rule {
    ($d:expr, $im:ty, $rule:ty) => {{
        let provider = Part($d);
        match provider.compute_bfs_giving_im::<$im>() {
            RankedFeasibilityResult::Infeasible => OptimizationResult::Infeasible,
            RankedFeasibilityResult::Feasible { rank, nr_artificial_variables, inverse_maintainer, basis } => match rank {
                Rank::Deficient(rows) if !rows.is_empty() => {
                    let filtered = RemoveRows::new(&provider, rows);
                    let mut t = Tableau::<$im, NonArtificial<_>>::from_artificial_removing_rows(
                        inverse_maintainer,
                        nr_artificial_variables,
                        basis,
                        &filtered,
                    );
                    phase_two::primal::<_, _, $rule>(&mut t)
                }
                _ => {
                    let mut t = Tableau::<$im, NonArtificial<_>>::from_artificial(
                        inverse_maintainer,
                        nr_artificial_variables,
                        basis,
                        &provider,
                    );
                    phase_two::primal::<_, _, $rule>(&mut t)
                }
            },
        }
    }};
}

pub fn strategies(e: &E, cfg: &EqCfg, bs: &Bases, lu: bool) {
    let d = Dn::new(e, cfg);
    let o = Oracle { bs, b: d.b.clone(), c: d.costs() };
    let results: Vec<(&str, OptimizationResult<N>)> = if lu {
        vec![
            ("first profitable: ", with_rule!(&d, Lu, FirstProfitable)),
            ("with memory: ", with_rule!(&d, Lu, FirstProfitableWithMemory)),
            ("along variable: ", with_rule!(&d, Lu, SteepestDescentAlongVariable)),
            ("along objective: ", with_rule!(&d, Lu, SteepestDescentAlongObjective<N>)),
        ]
    } else {
        vec![
            ("first profitable: ", with_rule!(&d, Rows, FirstProfitable)),
            ("with memory: ", with_rule!(&d, Rows, FirstProfitableWithMemory)),
            ("along variable: ", with_rule!(&d, Rows, SteepestDescentAlongVariable)),
            ("along objective: ", with_rule!(&d, Rows, SteepestDescentAlongObjective<N>)),
        ]
    };
    let mut values: Vec<Option<N>> = vec![];
    for (tag, r) in &results {
        judge(e, tag, r, &o);
        values.push(match r {
            OptimizationResult::FiniteOptimum(x) => Some(dot(&o.c, &dense(x, bs.n))),
            _ => None,
        });
    }
    for i in 1..results.len() {
        let same = match (&results[0].1, &results[i].1) {
            (OptimizationResult::Infeasible, OptimizationResult::Infeasible) => Fm::T,
            (OptimizationResult::Unbounded, OptimizationResult::Unbounded) => Fm::T,
            (OptimizationResult::FiniteOptimum(_), OptimizationResult::FiniteOptimum(_)) => {
                eq(values[0].as_ref().unwrap(), values[i].as_ref().unwrap())
            }
            _ => Fm::F,
        };
        e.prove(&format!("{}differs from the first strategy", results[i].0), same);
    }
}

