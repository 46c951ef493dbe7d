// Network programs. `net` is the module with the representation of networks.
use std::ops::Range;

use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
use relp::algorithm::two_phase::matrix_provider::column::Column as ColumnTrait;
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::IntoFilteredColumn;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::PartialInitialBasis;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::Carry;
use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, SparseMatrix};
use relp::data::linear_algebra::traits::{SparseComparator, SparseElement};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::BoundDirection;
use net::{ArcDirection, ArcIncidenceColumn, IncidenceMatrix};

fn adjacency(nv: usize, arcs: &[(usize, usize)], w: &[N]) -> SparseMatrix<N, N, ColumnMajor> {
    let mut cols = vec![vec![]; nv];
    for (t, &(from, to)) in arcs.iter().enumerate() {
        cols[from].push((to, w[t].clone()));
    }
    ColumnMajor::new(cols, nv, nv)
}
fn weights(e: &E, n: usize, mask: u8) -> Vec<N> {
    (0..n)
        .map(|t| {
            let x = e.var(&format!("w{t}"));
            e.assume(Fm::Sg(x.clone(), mask));
            x
        })
        .collect()
}
fn sign(d: &ArcDirection) -> i64 {
    match d {
        ArcDirection::Incoming => 1,
        ArcDirection::Outgoing => -1,
    }
}

/// Arcs are sorted by tail and head.
pub fn incidence(e: &E, nv: usize, arcs: &[(usize, usize)], removed: &[usize], filter: &[usize]) {
    let w = weights(e, arcs.len(), NEG | POS);
    let (m, values) = IncidenceMatrix::new(adjacency(nv, arcs, &w), removed.to_vec());
    e.prove("sizes", Fm::bool(m.nr_vertices() == nv && m.nr_edges() == arcs.len() && Vector::len(&values) == arcs.len()));
    if m.nr_edges() != arcs.len() || Vector::len(&values) != arcs.len() {
        return;
    }
    e.prove("weights", Fm::And((0..arcs.len()).map(|t| eq(&values[t], &w[t])).collect()));
    let index = |v: usize, out: &[usize]| (!out.contains(&v)).then(|| v - out.iter().filter(|&&r| r < v).count());
    for (t, &(from, to)) in arcs.iter().enumerate() {
        let mut want: Vec<(usize, i64)> = vec![];
        want.extend(index(from, removed).map(|i| (i, -1)));
        want.extend(index(to, removed).map(|i| (i, 1)));
        want.sort();
        let got: Vec<(usize, i64)> = m.column(t).iter().map(|(i, d)| (*i, sign(d))).collect();
        e.prove("incidence column", Fm::bool(got == want));
        let c = ArcIncidenceColumn(m.column(t));
        let got: Vec<(usize, i64)> = ColumnTrait::iter(&c).map(|(i, d)| (i, sign(d))).collect();
        e.prove("iterated column", Fm::bool(got == want));
        // Leave out rows of the remaining ones
        want.retain(|x| !filter.contains(&x.0));
        want.iter_mut().for_each(|x| x.0 -= filter.iter().filter(|&&r| r < x.0).count());
        let got: Vec<(usize, i64)> = c.into_filtered(filter).into_iter().map(|(i, d)| (i, sign(&d))).collect();
        e.prove("filtered column", Fm::bool(got == want));
    }
    let got: Vec<(usize, i64)> = ArcIncidenceColumn::identity(1, 3).into_iter().map(|(i, d)| (i, sign(&d))).collect();
    e.prove("unit column", Fm::bool(got == [(1, 1)]));
    e.outcome("incidence");
}

/// The operators with arc directions.
pub fn arithmetic(e: &E) {
    let x = e.var("x");
    for (d, v) in [(ArcDirection::Incoming, 1), (ArcDirection::Outgoing, -1)] {
        let v = k(v);
        e.prove("from", Fm::And(vec![eq(&N::from(&d), &v), eq(&N::from(d.clone()), &v)]));
        let mut y = x.clone();
        y += &d;
        let mut z = x.clone();
        z += d.clone();
        let sum = x.clone() + &v;
        e.prove("sum", Fm::And([&(x.clone() + &d), &(x.clone() + d.clone()), &y, &z].iter().map(|s| eq(s, &sum)).collect()));
        let mut y = x.clone();
        y -= &d;
        let mut z = x.clone();
        z -= d.clone();
        let difference = x.clone() - &v;
        e.prove("difference", Fm::And([&(x.clone() - &d), &(x.clone() - d.clone()), &y, &z].iter().map(|s| eq(s, &difference)).collect()));
        let mut y = x.clone();
        y *= &d;
        let mut z = x.clone();
        z *= d.clone();
        let product = x.clone() * &v;
        e.prove("product", Fm::And([&(x.clone() * &d), &(x.clone() * d.clone()), &(&x * &d), &y, &z].iter().map(|s| eq(s, &product)).collect()));
        let mut y = x.clone();
        y /= &d;
        let mut z = x.clone();
        z /= d.clone();
        e.prove("quotient", Fm::And([&(x.clone() / &d), &(x.clone() / d.clone()), &y, &z].iter().map(|s| eq(s, &product)).collect()));
    }
    e.outcome("arithmetic");
}

/// Shortest path, as in the example: one unit leaves `s` and enters `t`, the row of `s` is left out.
struct Path {
    incidence: IncidenceMatrix,
    cost: DenseVector<N>,
    s: usize,
    t: usize,
}
impl MatrixProvider for Path {
    type Column = ArcIncidenceColumn;
    type Cost<'a> = Option<&'a N>;
    type Rhs = N;
    fn column(&self, j: usize) -> Self::Column {
        ArcIncidenceColumn(self.incidence.column(j))
    }
    fn cost_value(&self, j: usize) -> Self::Cost<'_> {
        Some(&self.cost[j])
    }
    fn right_hand_side(&self) -> DenseVector<N> {
        let mut b = DenseVector::constant(k(0), self.nr_rows());
        b[if self.t < self.s { self.t } else { self.t - 1 }] = k(1);
        b
    }
    fn bound_row_index(&self, _: usize, _: BoundDirection) -> Option<usize> {
        None
    }
    fn nr_constraints(&self) -> usize {
        self.incidence.nr_vertices() - 1
    }
    fn nr_variable_bounds(&self) -> usize {
        0
    }
    fn nr_columns(&self) -> usize {
        self.incidence.nr_edges()
    }
    fn reconstruct_solution<G: SparseElement<G> + SparseComparator>(&self, v: SparseVector<G, G>) -> SparseVector<G, G> {
        v
    }
}

fn sum_of(w: &[N], arcs: &[usize]) -> N {
    let mut s = k(0);
    for &a in arcs {
        s += &w[a];
    }
    s
}
fn values(x: &SparseVector<N, N>, n: usize) -> Vec<N> {
    let mut v = vec![k(0); n];
    for (j, value) in Vector::iter(x) {
        v[*j] = value.clone();
    }
    v
}
fn balance(arcs: &[(usize, usize)], x: &[N], v: usize) -> N {
    let mut s = k(0);
    for (t, &(from, to)) in arcs.iter().enumerate() {
        if to == v {
            s += &x[t];
        }
        if from == v {
            s -= &x[t];
        }
    }
    s
}

/// `paths`: arc lists of all simple paths; `cycles`: of all simple cycles. `free`: weights of any sign.
pub fn shortest(e: &E, nv: usize, arcs: &[(usize, usize)], s: usize, t: usize, paths: &[Vec<usize>], cycles: &[Vec<usize>], free: bool, lu: bool) {
    let w = weights(e, arcs.len(), if free { NEG | POS } else { POS });
    let (incidence, cost) = IncidenceMatrix::new(adjacency(nv, arcs, &w), vec![s]);
    let p = Path { incidence, cost, s, t };
    let r = if lu { p.solve_relaxation::<Carry<N, LUDecomposition<N>>>() } else { p.solve_relaxation::<Carry<N, BasisInverseRows<N>>>() };
    match r {
        OptimizationResult::Infeasible => {
            e.outcome("infeasible");
            e.prove("infeasible reported but there is a path", Fm::bool(paths.is_empty()));
        }
        OptimizationResult::Unbounded => {
            e.outcome("unbounded");
            e.prove("unbounded reported but there is no path", Fm::bool(!paths.is_empty()));
            e.prove("unbounded reported without a negative cycle", Fm::Or(cycles.iter().map(|c| Fm::Sg(sum_of(&w, c), NEG)).collect()));
        }
        OptimizationResult::FiniteOptimum(x) => {
            e.outcome("optimum");
            e.prove("optimum reported but there is no path", Fm::bool(!paths.is_empty()));
            e.prove("optimum reported with a negative cycle", Fm::And(cycles.iter().map(|c| ge0(&sum_of(&w, c))).collect()));
            let x = values(&x, arcs.len());
            let mut f: Vec<F> = x.iter().map(ge0).collect();
            for v in 0..nv {
                f.push(eq(&balance(arcs, &x, v), &k((v == t) as i64 - (v == s) as i64)));
            }
            e.prove("the flow is not a unit flow", Fm::And(f));
            let z = dot(&w, &x);
            e.prove("a shorter path exists", Fm::And(paths.iter().map(|p| le(&z, &sum_of(&w, p))).collect()));
            e.prove("no path has the reported length", Fm::Or(paths.iter().map(|p| eq(&z, &sum_of(&w, p))).collect()));
        }
    }
}

/// Maximum flow, as in the example: arcs have capacities (bound rows), source and sink are left out.
struct Flow {
    incidence: IncidenceMatrix,
    capacity: DenseVector<N>,
    source_arcs: Vec<usize>,
    minus_one: N,
}
#[derive(Debug, Clone)]
struct FlowColumn(Vec<(usize, ArcDirection)>, usize);
impl IntoIterator for FlowColumn {
    type Item = (usize, ArcDirection);
    type IntoIter = std::vec::IntoIter<(usize, ArcDirection)>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
fn pair(p: &(usize, ArcDirection)) -> (usize, &ArcDirection) {
    (p.0, &p.1)
}
impl ColumnTrait for FlowColumn {
    type F = ArcDirection;
    type Iter<'a> = std::iter::Map<std::slice::Iter<'a, (usize, ArcDirection)>, fn(&'a (usize, ArcDirection)) -> (usize, &'a ArcDirection)>;
    fn iter(&self) -> Self::Iter<'_> {
        self.0.iter().map(pair as fn(&(usize, ArcDirection)) -> (usize, &ArcDirection))
    }
    fn index_to_string(&self, _: usize) -> String {
        String::new()
    }
}
impl Identity for FlowColumn {
    fn identity(i: usize, _len: usize) -> Self {
        FlowColumn(vec![(i, ArcDirection::Incoming)], 0)
    }
}
impl IntoFilteredColumn for FlowColumn {
    type Filtered = Self;
    fn into_filtered(self, to_remove: &[usize]) -> Self {
        FlowColumn(
            self.0
                .into_iter()
                .filter(|(i, _)| !to_remove.contains(i))
                .map(|(i, v)| (i - to_remove.iter().filter(|&&r| r < i).count(), v))
                .collect(),
            self.1,
        )
    }
}
impl MatrixProvider for Flow {
    type Column = FlowColumn;
    type Cost<'a> = Option<&'a N>;
    type Rhs = N;
    fn column(&self, j: usize) -> Self::Column {
        let n = self.incidence.nr_edges();
        if j < n {
            let mut c = self.incidence.column(j);
            c.push((self.nr_constraints() + j, ArcDirection::Incoming));
            FlowColumn(c, 0)
        } else {
            FlowColumn(vec![(self.nr_constraints() + j - n, ArcDirection::Incoming)], 0)
        }
    }
    fn cost_value(&self, j: usize) -> Self::Cost<'_> {
        self.source_arcs.contains(&j).then_some(&self.minus_one)
    }
    fn right_hand_side(&self) -> DenseVector<N> {
        let mut b: Vec<N> = vec![k(0); self.nr_constraints()];
        b.extend(Vector::iter(&self.capacity).cloned());
        let n = b.len();
        DenseVector::new(b, n)
    }
    fn bound_row_index(&self, j: usize, t: BoundDirection) -> Option<usize> {
        match t {
            BoundDirection::Upper if j < self.incidence.nr_edges() => Some(self.nr_constraints() + j),
            _ => None,
        }
    }
    fn nr_constraints(&self) -> usize {
        self.incidence.nr_vertices() - 2
    }
    fn nr_variable_bounds(&self) -> usize {
        self.incidence.nr_edges()
    }
    fn nr_columns(&self) -> usize {
        2 * self.incidence.nr_edges()
    }
    fn reconstruct_solution<G: SparseElement<G> + SparseComparator>(&self, v: SparseVector<G, G>) -> SparseVector<G, G> {
        v
    }
}
impl PartialInitialBasis for Flow {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> {
        let n = self.incidence.nr_edges();
        (0..n).map(|j| (self.nr_constraints() + j, n + j)).collect()
    }
    fn nr_initial_elements(&self) -> usize {
        self.incidence.nr_edges()
    }
}

/// No arcs enter `s`.
pub fn flow(e: &E, nv: usize, arcs: &[(usize, usize)], s: usize, t: usize, lu: bool) {
    let w = weights(e, arcs.len(), POS);
    let (incidence, capacity) = IncidenceMatrix::new(adjacency(nv, arcs, &w), vec![t, s]);
    let source_arcs = (0..arcs.len()).filter(|&a| arcs[a].0 == s).collect();
    let p = Flow { incidence, capacity, source_arcs, minus_one: k(-1) };
    let r = if lu { p.solve_relaxation::<Carry<N, LUDecomposition<N>>>() } else { p.solve_relaxation::<Carry<N, BasisInverseRows<N>>>() };
    match r {
        OptimizationResult::Infeasible => {
            e.outcome("infeasible");
            e.prove("infeasible reported", Fm::F);
        }
        OptimizationResult::Unbounded => {
            e.outcome("unbounded");
            e.prove("unbounded reported", Fm::F);
        }
        OptimizationResult::FiniteOptimum(x) => {
            e.outcome("optimum");
            let x = values(&x, 2 * arcs.len());
            let mut f: Vec<F> = x.iter().map(ge0).collect();
            for v in (0..nv).filter(|&v| v != s && v != t) {
                f.push(is0(&balance(arcs, &x, v)));
            }
            f.extend((0..arcs.len()).map(|a| le(&x[a], &w[a])));
            e.prove("not a flow within the capacities", Fm::And(f));
            let z = -balance(arcs, &x, s);
            let cuts: Vec<N> = (0..1u32 << nv)
                .filter(|c| c >> s & 1 == 1 && c >> t & 1 == 0)
                .map(|c| sum_of(&w, &(0..arcs.len()).filter(|&a| c >> arcs[a].0 & 1 == 1 && c >> arcs[a].1 & 1 == 0).collect::<Vec<_>>()))
                .collect();
            e.prove("more than a cut", Fm::And(cuts.iter().map(|c| le(&z, c)).collect()));
            e.prove("less than every cut", Fm::Or(cuts.iter().map(|c| eq(&z, c)).collect()));
        }
    }
}
