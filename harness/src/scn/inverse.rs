// The basis inverse engines by themselves.
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::BasisInverse;
use relp::algorithm::two_phase::tableau::inverse_maintenance::ops as im_ops;

/// A square matrix by columns, entries possibly symbolic; zero entries are left out.
fn columns(e: &E, a: &[Vec<V>]) -> Vec<Vec<N>> {
    let m = a.len();
    let n = a.first().map_or(0, |r| r.len());
    let mut out = vec![vec![k(0); m]; n];
    for (i, row) in a.iter().enumerate() {
        for (j, v) in row.iter().enumerate() {
            if *v != V::K(0) {
                out[j][i] = input(e, v);
            }
        }
    }
    out
}

/// Leave out what is zero (asks for the sign of symbolic entries, as the providers of columns have to).
fn col(v: &[N]) -> Col {
    use relp_num::NonZero;
    Col(v.iter().enumerate().filter(|(_, x)| x.is_not_zero()).map(|(i, x)| (i, x.clone())).collect())
}

fn det(cols: &[Vec<N>], rows: &[usize]) -> N {
    if rows.is_empty() {
        return k(1);
    }
    let mut s = k(0);
    let j = cols.len() - rows.len();
    for (t, &i) in rows.iter().enumerate() {
        let rest: Vec<usize> = rows.iter().copied().filter(|&x| x != i).collect();
        let term = cols[j][i].clone() * &det(cols, &rest);
        if t % 2 == 0 {
            s += term;
        } else {
            s -= term;
        }
    }
    s
}

/// `B x = v`
fn left_ok(cols: &[Vec<N>], x: &[N], v: &[N]) -> F {
    let m = v.len();
    Fm::And(
        (0..m)
            .map(|i| {
                let mut s = k(0);
                for (j, c) in cols.iter().enumerate() {
                    s += c[i].clone() * &x[j];
                }
                eq(&s, &v[i])
            })
            .collect(),
    )
}
/// `y B = v`
fn right_ok(cols: &[Vec<N>], y: &[N], v: &[N]) -> F {
    Fm::And(cols.iter().zip(v).map(|(c, x)| eq(&dot(c, y), x)).collect())
}

fn unit(m: usize, i: usize) -> Vec<N> {
    (0..m).map(|j| k((i == j) as i64)).collect()
}

/// Everything the engine can tell about the represented matrix. `full`: also a general column.
fn represents<BI>(e: &E, tag: &str, bi: &BI, cols: &[Vec<N>], probe: &[Vec<N>])
where
    BI: BasisInverse<F = N>,
    N: im_ops::Column<N>,
{
    let m = cols.len();
    e.prove(&format!("{tag}size"), Fm::bool(bi.m() == m));
    for v in probe {
        let c = col(v);
        let x = dense(&bi.left_multiply_by_basis_inverse(ColumnTrait::iter(&c)).into_column(), m);
        e.prove(&format!("{tag}product from the left"), left_ok(cols, &x, v));
        let y = dense(&bi.right_multiply_by_basis_inverse(ColumnTrait::iter(&c)), m);
        e.prove(&format!("{tag}product from the right"), right_ok(cols, &y, v));
        for i in 0..m {
            let g = bi.generate_element(i, ColumnTrait::iter(&c)).unwrap_or_else(|| k(0));
            e.prove(&format!("{tag}element"), eq(&g, &x[i]));
        }
    }
    for i in 0..m {
        let r = dense(&bi.basis_inverse_row(i), m);
        e.prove(&format!("{tag}row of the inverse"), right_ok(cols, &r, &unit(m, i)));
    }
}

fn probes(e: &E, m: usize, symbolic: bool) -> Vec<Vec<N>> {
    let mut out: Vec<Vec<N>> = (0..m).map(|i| unit(m, i)).collect();
    if symbolic {
        out.push((0..m).map(|i| e.var(&format!("v{i}"))).collect());
    }
    // A column with a hole, with concrete entries
    out.push((0..m).map(|i| k(if i % 2 == 0 { i as i64 + 2 } else { 0 })).collect());
    out.push((0..m).map(|i| k(if i % 3 == 1 { -3 } else { (i % 3) as i64 })).collect());
    out
}

fn fresh<BI: BasisInverse<F = N>>(e: &E, a: &[Vec<V>], symbolic_probe: bool, regular: bool) {
    let cols = columns(e, a);
    let m = cols.len();
    if !regular {
        e.assume(Fm::Sg(det(&cols, &(0..m).collect::<Vec<_>>()), NEG | POS));
    }
    let bi = BI::invert(cols.iter().map(|c| col(c)).collect::<Vec<_>>().into_iter());
    e.outcome("inverted");
    let p = probes(e, m, symbolic_probe);
    represents(e, "", &bi, &cols, &p);
}
pub fn l01(e: &E, a: &[Vec<V>], lu: bool, symbolic_probe: bool, regular: bool) {
    if lu {
        fresh::<LUDecomposition<N>>(e, a, symbolic_probe, regular)
    } else {
        fresh::<BasisInverseRows<N>>(e, a, symbolic_probe, regular)
    }
}

/// Replacement columns are the columns of `with`, put in the given positions.
fn replaced<BI: BasisInverse<F = N>>(e: &E, a: Option<&[Vec<V>]>, with: &[Vec<V>], at: &[usize], check_from: usize, symbolic_probe: bool, rebuild: bool) {
    let new = columns(e, with);
    let m = with.len();
    let (mut bi, mut cols) = match a {
        None => (BI::identity(m), (0..m).map(|i| unit(m, i)).collect::<Vec<_>>()),
        Some(a) => {
            let cols = columns(e, a);
            (BI::invert(cols.iter().map(|c| col(c)).collect::<Vec<_>>().into_iter()), cols)
        }
    };
    let p = probes(e, m, symbolic_probe);
    if check_from == 0 {
        represents(e, "before: ", &bi, &cols, &p);
    }
    let mut rebuilt = 0;
    for (step, (&row, v)) in at.iter().zip(&new).enumerate() {
        let c = col(v);
        let info = bi.left_multiply_by_basis_inverse(ColumnTrait::iter(&c));
        let x = dense(info.column(), m);
        if step + 1 >= check_from {
            e.prove("entering column", left_ok(&cols, &x, v));
        }
        e.assume(Fm::Sg(x[row].clone(), NEG | POS));
        cols[row] = v.clone();
        if rebuild && bi.should_refactor() {
            rebuilt += 1;
            bi = BI::invert(cols.iter().map(|c| col(c)).collect::<Vec<_>>().into_iter());
            represents(e, "rebuilt: ", &bi, &cols, &p);
        } else {
            let returned = dense(&bi.change_basis(row, info), m);
            e.prove("returned column", Fm::And(returned.iter().zip(&x).map(|(a, b)| eq(a, b)).collect()));
        }
        if step + 1 >= check_from {
            represents(e, &format!("after {} replacements: ", step + 1), &bi, &cols, &p);
        }
    }
    e.outcome(&format!("replaced {} rebuilt {rebuilt}", at.len()));
}
#[allow(clippy::too_many_arguments)]
pub fn l02(e: &E, a: Option<&[Vec<V>]>, with: &[Vec<V>], at: &[usize], lu: bool, check_from: usize, symbolic_probe: bool, rebuild: bool) {
    if lu {
        replaced::<LUDecomposition<N>>(e, a, with, at, check_from, symbolic_probe, rebuild)
    } else {
        replaced::<BasisInverseRows<N>>(e, a, with, at, check_from, symbolic_probe, rebuild)
    }
}

/// Both engines over the same history.
pub fn l04(e: &E, a: Option<&[Vec<V>]>, with: &[Vec<V>], at: &[usize], symbolic_probe: bool) {
    let new = columns(e, with);
    let m = with.len();
    let start = a.map(|a| columns(e, a));
    let (mut x, mut y) = match &start {
        None => (LUDecomposition::<N>::identity(m), BasisInverseRows::<N>::identity(m)),
        Some(c) => (
            LUDecomposition::<N>::invert(c.iter().map(|c| col(c)).collect::<Vec<_>>().into_iter()),
            BasisInverseRows::<N>::invert(c.iter().map(|c| col(c)).collect::<Vec<_>>().into_iter()),
        ),
    };
    let p = probes(e, m, symbolic_probe);
    let same = |tag: &str, x: &LUDecomposition<N>, y: &BasisInverseRows<N>| {
        e.prove(&format!("{tag}size"), Fm::bool(x.m() == y.m()));
        for v in &p {
            let c = col(v);
            let l = dense(&x.left_multiply_by_basis_inverse(ColumnTrait::iter(&c)).into_column(), m);
            let r = dense(&y.left_multiply_by_basis_inverse(ColumnTrait::iter(&c)).into_column(), m);
            e.prove(&format!("{tag}columns differ"), Fm::And(l.iter().zip(&r).map(|(a, b)| eq(a, b)).collect()));
            let l = dense(&x.right_multiply_by_basis_inverse(ColumnTrait::iter(&c)), m);
            let r = dense(&y.right_multiply_by_basis_inverse(ColumnTrait::iter(&c)), m);
            e.prove(&format!("{tag}row products differ"), Fm::And(l.iter().zip(&r).map(|(a, b)| eq(a, b)).collect()));
            for i in 0..m {
                let g = x.generate_element(i, ColumnTrait::iter(&c)).unwrap_or_else(|| k(0));
                let h = y.generate_element(i, ColumnTrait::iter(&c)).unwrap_or_else(|| k(0));
                e.prove(&format!("{tag}elements differ"), eq(&g, &h));
            }
        }
        for i in 0..m {
            let l = dense(&x.basis_inverse_row(i), m);
            let r = dense(&y.basis_inverse_row(i), m);
            e.prove(&format!("{tag}rows of the inverse differ"), Fm::And(l.iter().zip(&r).map(|(a, b)| eq(a, b)).collect()));
        }
    };
    same("start: ", &x, &y);
    for (step, (&row, v)) in at.iter().zip(&new).enumerate() {
        let c = col(v);
        let i = x.left_multiply_by_basis_inverse(ColumnTrait::iter(&c));
        let j = y.left_multiply_by_basis_inverse(ColumnTrait::iter(&c));
        let l = dense(i.column(), m);
        let r = dense(j.column(), m);
        e.prove("entering columns differ", Fm::And(l.iter().zip(&r).map(|(a, b)| eq(a, b)).collect()));
        e.assume(Fm::Sg(l[row].clone(), NEG | POS));
        e.assume(Fm::Sg(r[row].clone(), NEG | POS));
        let l = dense(&x.change_basis(row, i), m);
        let r = dense(&y.change_basis(row, j), m);
        e.prove("returned columns differ", Fm::And(l.iter().zip(&r).map(|(a, b)| eq(a, b)).collect()));
        same(&format!("after {} replacements: ", step + 1), &x, &y);
    }
    e.outcome("done");
}

/// Same program through both engines: the same answer.
pub fn l04_solve(e: &E, cfg: &EqCfg, kind: u8) {
    let d = Dn::new(e, cfg);
    let x = solve_dense(&d, kind, true);
    let y = solve_dense(&d, kind, false);
    let c = d.costs();
    match (&x, &y) {
        (OptimizationResult::Infeasible, OptimizationResult::Infeasible) => e.outcome("infeasible"),
        (OptimizationResult::Unbounded, OptimizationResult::Unbounded) => e.outcome("unbounded"),
        (OptimizationResult::FiniteOptimum(x), OptimizationResult::FiniteOptimum(y)) => {
            e.outcome("optimum");
            e.prove("optimal costs differ", eq(&dot(&c, &dense(x, d.n)), &dot(&c, &dense(y, d.n))));
        }
        _ => e.prove("verdicts differ", Fm::F),
    }
}

/// A long run of exchanges through the whole maintained state, judged from exchange number `from` on.
fn long_run<IM: InverseMaintainer<F = N>>(e: &E, cfg: &EqCfg, steps: &[(usize, usize)], from: usize) {
    let d = Dn::new(e, cfg);
    let p = Full(&d);
    let mut t = from_pivots::<IM>(&p, &cfg.pivots);
    let mut sorted = cfg.pivots.clone();
    sorted.sort();
    let mut st = State { d: &d, cols: sorted.iter().map(|x| x.1).collect(), rows: (0..d.m).collect() };
    for (at, &(row, col)) in steps.iter().enumerate() {
        let info = t.generate_column(col);
        let cost = t.relative_cost(col);
        let leaving = st.cols[row];
        let change = t.bring_into_basis(col, row, info, cost);
        st.cols[row] = col;
        e.prove("leaving column", Fm::bool(change.leaving_column_index == leaving && change.pivot_row_index == row && change.pivot_column_index == col));
        if at + 1 >= from {
            check_state(e, &format!("after {} exchanges: ", at + 1), &t, &st);
            // The row of the inverse that the exchange reports: times the basis it is a unit vector
            let r = dense(&change.basis_inverse_row, d.m);
            let v = st.cols.iter().enumerate().map(|(i, &j)| eq(&dot(&d.dense_col(j), &r), &k((i == row) as i64))).collect();
            e.prove("reported row of the inverse", Fm::And(v));
        }
    }
    e.outcome("done");
}
pub fn l03(e: &E, cfg: &EqCfg, steps: &[(usize, usize)], lu: bool, from: usize) {
    if lu { long_run::<Lu>(e, cfg, steps, from) } else { long_run::<Rows>(e, cfg, steps, from) }
}
