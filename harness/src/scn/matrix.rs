// The canonical matrix view and its filtered version.
use relp::algorithm::two_phase::matrix_provider::column::Column as ColumnTrait;
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::{IntoFilteredColumn, RemoveRows};
use relp::algorithm::two_phase::matrix_provider::filter::{Filtered, ToFiltered};
use relp::algorithm::two_phase::matrix_provider::matrix_data::MatrixData;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::PartialInitialBasis;
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, SparseMatrix};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::{BoundDirection, VariableType};
use relp::data::linear_program::general_form::Variable;

/// The program in terms of its rows.
pub struct Rows {
    pub n: usize,
    pub a: Vec<Vec<N>>,
    pub b: Vec<N>,
    pub r: Vec<N>,
    pub u: Vec<Option<N>>,
    pub c: Vec<N>,
    pub kinds: Vec<Rk>,
    constraints: SparseMatrix<N, N, ColumnMajor>,
    rhs: DenseVector<N>,
    variables: Vec<Variable<N>>,
}
impl Rows {
    fn count(&self, k: Rk) -> usize {
        self.kinds.iter().filter(|x| **x == k).count()
    }
    pub fn new(e: &E, p: &MCfg) -> Rows {
        use relp_num::NonZero;
        let n = p.c.len();
        let a: Vec<Vec<N>> = p.rows.iter().map(|r| r.1.iter().map(|v| input(e, v)).collect()).collect();
        let b: Vec<N> = p.b.iter().map(|v| input(e, v)).collect();
        let r: Vec<N> = p.r.iter().map(|v| input(e, v)).collect();
        let u: Vec<Option<N>> = p.u.iter().map(|v| v.as_ref().map(|v| input(e, v))).collect();
        let c: Vec<N> = p.c.iter().map(|v| input(e, v)).collect();
        let columns = (0..n)
            .map(|j| (0..a.len()).filter(|&i| a[i][j].is_not_zero()).map(|i| (i, a[i][j].clone())).collect::<Vec<_>>())
            .collect();
        let variables = (0..n)
            .map(|j| Variable {
                variable_type: VariableType::Continuous,
                cost: c[j].clone(),
                lower_bound: Some(k(0)),
                upper_bound: u[j].clone(),
                shift: k(0),
                flipped: false,
            })
            .collect();
        Rows {
            n,
            constraints: ColumnMajor::new(columns, a.len(), n),
            rhs: DenseVector::new(b.clone(), b.len()),
            variables,
            kinds: p.rows.iter().map(|r| r.0).collect(),
            a,
            b,
            r,
            u,
            c,
        }
    }
    pub fn data(&self) -> MatrixData<'_, N> {
        MatrixData::new(
            &self.constraints,
            &self.rhs,
            self.r.iter().collect(),
            self.count(Rk::Eq),
            self.count(Rk::Range),
            self.count(Rk::Le),
            self.count(Rk::Ge),
            &self.variables,
        )
    }
    /// The rows and bounds in the given point; `slack` also gives the slack values that belong to it, in the
    /// documented order of the columns.
    fn satisfied(&self, x: &[N]) -> F {
        let mut v: Vec<F> = x.iter().map(ge0).collect();
        let mut ri = 0;
        for (i, kind) in self.kinds.iter().enumerate() {
            let act = dot(&self.a[i], x);
            match kind {
                Rk::Eq => v.push(eq(&act, &self.b[i])),
                Rk::Le => v.push(le(&act, &self.b[i])),
                Rk::Ge => v.push(le(&self.b[i], &act)),
                Rk::Range => {
                    v.push(le(&act, &self.b[i]));
                    v.push(le(&(self.b[i].clone() - &self.r[ri]), &act));
                    ri += 1;
                }
            }
        }
        for (x, u) in x.iter().zip(&self.u) {
            if let Some(u) = u {
                v.push(le(x, u));
            }
        }
        Fm::And(v)
    }
    /// Slack values of the kinds of columns in the documented order.
    fn slacks(&self, x: &[N]) -> Vec<N> {
        let mut groups: [Vec<N>; 5] = Default::default();
        let mut ri = 0;
        for (i, kind) in self.kinds.iter().enumerate() {
            let gap = self.b[i].clone() - dot(&self.a[i], x);
            match kind {
                Rk::Eq => {}
                Rk::Range => {
                    groups[4].push(self.r[ri].clone() - &gap);
                    ri += 1;
                    groups[0].push(gap);
                }
                Rk::Le => groups[1].push(gap),
                Rk::Ge => groups[2].push(-gap),
            }
        }
        for (x, u) in x.iter().zip(&self.u) {
            if let Some(u) = u {
                groups[3].push(u.clone() - x);
            }
        }
        groups.into_iter().flatten().collect()
    }
}

/// The columns as dense vectors; `None` if some column is not sorted, has duplicates or is out of range.
fn columns_of<MP: MatrixProvider<Column: ColumnTrait<F = N>>>(p: &MP) -> Option<Vec<Vec<N>>> {
    let m = p.nr_rows();
    (0..p.nr_columns())
        .map(|j| {
            let c = p.column(j);
            let v: Vec<(usize, N)> = ColumnTrait::iter(&c).map(|(i, x)| (i, x.clone())).collect();
            if !v.windows(2).all(|w| w[0].0 < w[1].0) || v.iter().any(|x| x.0 >= m) {
                return None;
            }
            let owned: Vec<(usize, N)> = c.into_iter().collect();
            if owned.len() != v.len() || owned.iter().zip(&v).any(|(a, b)| a.0 != b.0) {
                return None;
            }
            let mut d = vec![k(0); m];
            for (i, x) in v {
                d[i] = x;
            }
            Some(d)
        })
        .collect()
}

pub fn m01(e: &E, cfg: &MCfg) {
    let p = Rows::new(e, cfg);
    let d = p.data();
    let m = d.nr_rows();
    let nb = p.u.iter().flatten().count();
    e.prove("numbers of rows", Fm::bool(m == d.nr_constraints() + d.nr_variable_bounds() && d.nr_constraints() == p.kinds.len() && d.nr_variable_bounds() == nb + p.r.len()));
    let slacks = p.slacks(&vec![k(0); p.n]).len();
    e.prove("number of columns", Fm::bool(d.nr_columns() == p.n + slacks));
    let rhs: Vec<N> = d.right_hand_side().into_iter().collect();
    e.prove("length of the right-hand side", Fm::bool(rhs.len() == m));
    let Some(cols) = columns_of(&d) else {
        e.prove("columns are sorted, unique and in range", Fm::F);
        return;
    };
    e.outcome("shape");
    if cols.len() != p.n + slacks || rhs.len() != m {
        return;
    }
    let system = |y: &[N]| -> Vec<F> {
        (0..m)
            .map(|i| {
                let row: Vec<N> = cols.iter().map(|c| c[i].clone()).collect();
                eq(&dot(&row, y), &rhs[i])
            })
            .collect()
    };
    let cost = |y: &[N]| {
        let mut s = k(0);
        for (j, y) in y.iter().enumerate() {
            if let Some(c) = d.cost_value(j) {
                s += c.clone() * y;
            }
        }
        s
    };
    // From the program to the view: over all points that satisfy the equality rows. The slack
    // values solve the system, and are nonnegative exactly when the point satisfies everything.
    let x: Vec<N> = (0..p.n).map(|j| e.var(&format!("x{j}"))).collect();
    let mut y = x.clone();
    y.extend(p.slacks(&x));
    let equalities = || Fm::And((0..p.kinds.len()).filter(|&i| p.kinds[i] == Rk::Eq).map(|i| eq(&dot(&p.a[i], &x), &p.b[i])).collect::<Vec<F>>());
    for f in system(&y) {
        e.prove("points with their slacks satisfy the system", equalities().implies(f));
    }
    let nonneg = Fm::And(y.iter().map(ge0).collect());
    e.prove("satisfying points have nonnegative slacks", p.satisfied(&x).implies(nonneg));
    e.prove("same cost", eq(&cost(&y), &dot(&p.c, &x)));
    // From the view to the program
    let z: Vec<N> = (0..p.n + slacks).map(|j| e.var(&format!("y{j}"))).collect();
    let mut f = system(&z);
    f.extend(z.iter().map(ge0));
    e.prove("solutions of the view satisfy the program", Fm::And(f).implies(p.satisfied(&z[..p.n])));
    // Projection
    for keep in 0..3usize {
        let data: Vec<(usize, N)> = (0..cols.len()).filter(|j| (j + keep) % 3 != 0).map(|j| (j, k(j as i64 + 1))).collect();
        let s = d.reconstruct_solution(SparseVector::<N, N>::new(data.clone(), cols.len()));
        let got: Vec<(usize, N)> = Vector::iter(&s).cloned().collect();
        let want: Vec<(usize, N)> = data.into_iter().filter(|x| x.0 < p.n).collect();
        let ok = Vector::len(&s) == p.n && got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.0 == b.0);
        e.prove("projection", Fm::bool(ok));
        e.prove("projected values", Fm::And(got.iter().zip(&want).map(|(a, b)| eq(&a.1, &b.1)).collect()));
    }
    // Bound rows: the row says that the variable plus a nonnegative slack is the bound
    let mut seen = vec![];
    for j in 0..cols.len() {
        e.prove("no rows for lower bounds", Fm::bool(d.bound_row_index(j, BoundDirection::Lower).is_none()));
        match d.bound_row_index(j, BoundDirection::Upper) {
            None => e.prove("every bounded column has a bound row", Fm::bool(j >= p.n || p.u[j].is_none())),
            Some(i) => {
                e.prove("bound rows come after the constraint rows", Fm::bool(i >= d.nr_constraints() && i < m && !seen.contains(&i)));
                seen.push(i);
                if i < m {
                    let others = (0..cols.len()).filter(|&t| t != j && relp_num::NonZero::is_not_zero(&cols[t][i])).collect::<Vec<_>>();
                    let shape = others.len() == 1
                        && (0..m).filter(|&t| relp_num::NonZero::is_not_zero(&cols[others[0]][t])).count() == 1
;
                    e.prove("a bound row holds the column and one slack", Fm::bool(shape));
                    if shape {
                        e.prove("coefficients of a bound row", Fm::And(vec![eq(&cols[j][i], &k(1)), eq(&cols[others[0]][i], &k(1))]));
                    }
                    if j < p.n {
                        e.prove("bound value", match &p.u[j] {
                            Some(u) => eq(u, &rhs[i]),
                            None => Fm::F,
                        });
                    }
                }
            }
        }
    }
    e.prove("every bound row belongs to a column", Fm::bool(seen.len() == d.nr_variable_bounds()));
    initial(e, "", &d, &cols);
}

/// The initial basis: unit columns without cost, sorted by row.
fn initial<MP: MatrixProvider + PartialInitialBasis>(e: &E, tag: &str, d: &MP, cols: &[Vec<N>]) {
    let pivots = d.pivot_element_indices();
    let m = d.nr_rows();
    let ok = pivots.len() == d.nr_initial_elements()
        && pivots.windows(2).all(|w| w[0].0 < w[1].0)
        && pivots.iter().all(|&(i, j)| i < m && j < cols.len());
    e.prove(&format!("{tag}initial basis indices"), Fm::bool(ok));
    if ok {
        let mut f = vec![];
        for (i, j) in pivots {
            for t in 0..m {
                f.push(eq(&cols[j][t], &k((t == i) as i64)));
            }
        }
        e.prove(&format!("{tag}initial basis columns are unit vectors"), Fm::And(f));
    }
}

/// The filtered program against the rows of the unfiltered one.
fn filtered_ok<MP, R>(e: &E, tag: &str, full: &MP, part: &R, removed: &[usize])
where
    MP: MatrixProvider<Column: ColumnTrait<F = N>, Rhs = N> + PartialInitialBasis,
    R: MatrixProvider<Column: ColumnTrait<F = N>, Rhs = N> + PartialInitialBasis,
{
    let m = full.nr_rows();
    let kept: Vec<usize> = (0..m).filter(|i| !removed.contains(i)).collect();
    e.prove(
        &format!("{tag}sizes"),
        Fm::bool(
            part.nr_rows() == kept.len()
                && part.nr_columns() == full.nr_columns()
                && part.nr_constraints() == full.nr_constraints() - removed.len()
                && part.nr_variable_bounds() == full.nr_variable_bounds(),
        ),
    );
    if part.nr_rows() != kept.len() || part.nr_columns() != full.nr_columns() {
        return;
    }
    let (Some(fc), Some(pc)) = (columns_of(full), columns_of(part)) else {
        e.prove(&format!("{tag}columns are sorted, unique and in range"), Fm::F);
        return;
    };
    let mut f = vec![];
    for j in 0..fc.len() {
        for (t, &i) in kept.iter().enumerate() {
            f.push(eq(&pc[j][t], &fc[j][i]));
        }
    }
    e.prove(&format!("{tag}columns"), Fm::And(f));
    let (fb, pb): (Vec<N>, Vec<N>) = (full.right_hand_side().into_iter().collect(), part.right_hand_side().into_iter().collect());
    e.prove(&format!("{tag}right-hand side length"), Fm::bool(pb.len() == kept.len()));
    if pb.len() == kept.len() {
        e.prove(&format!("{tag}right-hand side"), Fm::And(kept.iter().zip(&pb).map(|(&i, b)| eq(&fb[i], b)).collect()));
    }
    for j in 0..fc.len() {
        for t in [BoundDirection::Lower, BoundDirection::Upper] {
            let want = full.bound_row_index(j, t).map(|i| kept.iter().position(|&x| x == i));
            e.prove(&format!("{tag}bound row"), Fm::bool(want == part.bound_row_index(j, t).map(Some)));
        }
    }
    let want: Vec<(usize, usize)> = full
        .pivot_element_indices()
        .into_iter()
        .filter_map(|(i, j)| kept.iter().position(|&x| x == i).map(|t| (t, j)))
        .collect();
    e.prove(&format!("{tag}initial basis"), Fm::bool(want == part.pivot_element_indices() && part.nr_initial_elements() == want.len()));
}
fn same_costs(e: &E, a: &MatrixData<'_, N>, b: &RemoveRows<'_, MatrixData<'_, N>>) {
    for j in 0..a.nr_columns() {
        let f = match (a.cost_value(j), b.cost_value(j)) {
            (None, None) => Fm::T,
            (Some(x), Some(y)) => eq(x, y),
            _ => Fm::F,
        };
        e.prove("cost", f);
    }
}

pub fn m02(e: &E, cfg: &MCfg, removed: &[usize], deletes: &[usize]) {
    let p = Rows::new(e, cfg);
    let d = p.data();
    let mut rows = removed.to_vec();
    let mut part = RemoveRows::new(&d, rows.clone());
    filtered_ok(e, "", &d, &part, &rows);
    same_costs(e, &d, &part);
    // Delete further rows one by one, by the index in the current version
    for &del in deletes {
        let kept: Vec<usize> = (0..d.nr_rows()).filter(|i| !rows.contains(i)).collect();
        for (t, &i) in kept.iter().enumerate() {
            e.prove("underlying row", Fm::bool(part.get_underlying_row_index(t) == i));
        }
        if del >= p.count(Rk::Eq) - rows.len() {
            break;
        }
        part.delete_row(del);
        rows.push(kept[del]);
        rows.sort();
        e.prove("removed rows", Fm::bool(part.filtered_rows() == rows.as_slice() && part.nr_constraints_deleted() == rows.len()));
        filtered_ok(e, "after deletion: ", &d, &part, &rows);
    }
    // Projection of solutions is that of the inner provider
    let n = d.nr_columns();
    let s: Vec<(usize, N)> = (0..n).map(|j| (j, k(j as i64 + 1))).collect();
    let a = d.reconstruct_solution(SparseVector::<N, N>::new(s.clone(), n));
    let b = part.reconstruct_solution(SparseVector::<N, N>::new(s, n));
    e.prove("projection", Fm::bool(a == b));
    e.outcome("filtered");
}

/// Single columns: what is left after removing rows.
pub fn m02_column(e: &E, pattern: &[V], removed: &[usize]) {
    use relp_num::NonZero;
    let v: Vec<N> = pattern.iter().map(|v| input(e, v)).collect();
    let tuples: Vec<(usize, N)> = v.iter().cloned().enumerate().filter(|x| x.1.is_not_zero()).collect();
    let want: Vec<N> = (0..v.len()).filter(|i| !removed.contains(i)).map(|i| v[i].clone()).collect();
    let check = |tag: &str, got: Vec<(usize, N)>| {
        let ok = got.windows(2).all(|w| w[0].0 < w[1].0) && got.iter().all(|x| x.0 < want.len());
        e.prove(&format!("{tag}: indices"), Fm::bool(ok));
        if ok {
            let mut d = vec![k(0); want.len()];
            for (i, x) in got {
                d[i] = x;
            }
            e.prove(&format!("{tag}: values"), Fm::And(d.iter().zip(&want).map(|(a, b)| eq(a, b)).collect()));
        }
    };
    use relp::algorithm::two_phase::matrix_provider::matrix_data::Column as MC;
    let split = tuples.len().saturating_sub(1);
    // Bound rows stay: the slack is not among the removed rows
    if let Some(last) = tuples.last() {
        if removed.iter().all(|&r| r < last.0) {
            let c: MC<N> = MC::Sparse { constraint_values: tuples[..split].to_vec(), slack: Some(last.clone()) };
            check("column with bound", ColumnTrait::iter(&c.into_filtered(removed)).map(|(i, x)| (i, x.clone())).collect());
        }
    }
    let c: MC<N> = MC::Sparse { constraint_values: tuples.clone(), slack: None };
    check("column", ColumnTrait::iter(&c.into_filtered(removed)).map(|(i, x)| (i, x.clone())).collect());
    e.outcome("column");
}
