// Sparse vectors and matrices against dense arrays, under sequences of operations.
use std::collections::HashSet;
use std::ops::Deref;
use relp::algorithm::two_phase::matrix_provider::column::{Column as VColumn, SparseSliceIterator};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, RowMajor, SparseMatrix};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp_num::NonZero;

type SV = SparseVector<N, N>;

fn nonzero(e: &E, name: &str) -> N {
    let x = e.var(name);
    e.assume(Fm::Sg(x.clone(), NEG | POS));
    x
}
fn sum(v: &[N]) -> N {
    let mut s = k(0);
    for x in v {
        s += x;
    }
    s
}

/// The stored pairs are strictly sorted, inside the length, not zero and equal to the dense values.
fn represents_data<'a>(e: &E, tag: &str, data: impl Iterator<Item = (usize, &'a N)>, want: &[N]) {
    let data: Vec<(usize, N)> = data.map(|(i, x)| (i, x.clone())).collect();
    let shape = data.windows(2).all(|w| w[0].0 < w[1].0) && data.iter().all(|p| p.0 < want.len());
    e.prove(&format!("{tag}: sorted, unique and inside the length"), Fm::bool(shape));
    let mut f = vec![];
    for (i, w) in want.iter().enumerate() {
        match data.iter().find(|p| p.0 == i) {
            Some((_, x)) => {
                f.push(eq(x, w));
                f.push(Fm::Sg(x.clone(), NEG | POS));
            }
            None => f.push(is0(w)),
        }
    }
    e.prove(&format!("{tag}: values"), Fm::And(f));
}
fn same_sparse(e: &E, tag: &str, v: &SV, want: &[N]) {
    e.prove(&format!("{tag}: length"), Fm::bool(Vector::len(v) == want.len() && Vector::is_empty(v) == want.is_empty()));
    represents_data(e, tag, Vector::iter(v).map(|(i, x)| (*i, x)), want);
    e.prove(&format!("{tag}: size"), Fm::bool(Vector::size(v) == Vector::iter(v).count() && Deref::deref(v).len() == Vector::size(v)));
    for (i, w) in want.iter().enumerate() {
        let f = match Vector::get(v, i) {
            Some(x) => eq(x, w),
            None => is0(w),
        };
        e.prove(&format!("{tag}: get"), f);
    }
    represents_data(e, &format!("{tag}, as a column"), VColumn::iter(v), want);
}
fn same_dense(e: &E, tag: &str, v: &DenseVector<N>, want: &[N]) {
    e.prove(&format!("{tag}: length"), Fm::bool(Vector::len(v) == want.len() && Vector::size(v) == want.len() && Vector::is_empty(v) == want.is_empty()));
    if Vector::len(v) != want.len() {
        return;
    }
    e.prove(
        &format!("{tag}: values"),
        Fm::And((0..want.len()).map(|i| Fm::And(vec![eq(&v[i], &want[i]), eq(Vector::get(v, i).unwrap(), &want[i]), eq(&v.inner()[i], &want[i])])).collect()),
    );
}

/// Pattern characters: `0` zero, `x` a nonzero input, `1` one, `?` any input.
fn vector(e: &E, name: &str, pattern: &str) -> Vec<N> {
    pattern
        .chars()
        .enumerate()
        .map(|(i, c)| match c {
            '0' => k(0),
            '1' => k(1),
            '-' => k(-1),
            '2' => k(2),
            'x' => nonzero(e, &format!("{name}{i}")),
            _ => e.var(&format!("{name}{i}")),
        })
        .collect()
}
fn sparse(v: &[N]) -> SV {
    SparseVector::new(v.iter().cloned().enumerate().filter(|(_, x)| x.is_not_zero()).collect(), v.len())
}

pub fn v01(e: &E, start: &str, ops: &[VOp]) {
    let mut want = vector(e, "a", start);
    let mut v: SV = match ops.first() {
        Some(VOp::FromIter) => want.iter().cloned().collect(),
        Some(VOp::Unit(i)) => {
            want = (0..want.len()).map(|j| k((*i == j) as i64)).collect();
            SparseVector::standard_basis_vector(*i, want.len())
        }
        _ => sparse(&want),
    };
    same_sparse(e, "start", &v, &want);
    let mut d: DenseVector<N> = DenseVector::new(want.clone(), want.len());
    if want.len() > 1 {
        let c = DenseVector::constant(want[0].clone(), want.len());
        same_dense(e, "constant", &c, &vec![want[0].clone(); want.len()]);
    }
    for (t, op) in ops.iter().enumerate() {
        let name = format!("p{t}_");
        match op {
            VOp::FromIter | VOp::Unit(_) => {}
            VOp::AddMultiple(pattern) => {
                let o = vector(e, &name, pattern);
                let f = nonzero(e, &format!("f{t}"));
                v.add_multiple_of_row(&f, &sparse(&o));
                for (w, o) in want.iter_mut().zip(&o) {
                    *w += f.clone() * o;
                }
            }
            VOp::AddMultipleBy(num, pattern) => {
                let o = vector(e, &name, pattern);
                let f = k(*num);
                v.add_multiple_of_row(&f, &sparse(&o));
                for (w, o) in want.iter_mut().zip(&o) {
                    *w += f.clone() * o;
                }
            }
            VOp::Set(i) => {
                let x = nonzero(e, &name);
                v.set(*i, x.clone());
                want[*i] = x;
            }
            VOp::Shift(i) => {
                let x = e.var(&name);
                v.shift_value(*i, x.clone());
                want[*i] += x;
            }
            VOp::Scale => {
                let x = nonzero(e, &name);
                v.element_wise_multiply(&x);
                want.iter_mut().for_each(|w| *w *= &x);
            }
            VOp::Divide => {
                let x = nonzero(e, &name);
                v.element_wise_divide(&x);
                want.iter_mut().for_each(|w| *w /= &x);
            }
            VOp::Push => {
                let x = nonzero(e, &name);
                v.push_value(x.clone());
                want.push(x);
            }
            VOp::Extend(n) => {
                v.extend(*n);
                want.extend((0..*n).map(|_| k(0)));
            }
            VOp::Remove(indices) => {
                Vector::remove_indices(&mut v, indices);
                let mut i = 0;
                want.retain(|_| {
                    i += 1;
                    !indices.contains(&(i - 1))
                });
            }
        }
        // The dense vector goes along
        match op {
            VOp::Set(i) => Vector::set(&mut d, *i, want[*i].clone()),
            VOp::Shift(i) => d[*i] = want[*i].clone(),
            VOp::Push => Vector::push_value(&mut d, want[want.len() - 1].clone()),
            VOp::Extend(n) => d.extend_with_values((0..*n).map(|_| k(0)).collect()),
            VOp::Remove(indices) => Vector::remove_indices(&mut d, indices),
            _ => d.inner_mut().iter_mut().zip(&want).for_each(|(x, w)| *x = w.clone()),
        }
        same_sparse(e, &format!("{op:?}"), &v, &want);
        same_dense(e, &format!("dense {op:?}"), &d, &want);
    }
    e.outcome("done");
    // Products
    let mut sq = k(0);
    for w in &want {
        sq += w.clone() * w;
    }
    e.prove("squared norm", eq(&v.squared_norm(), &sq));
    let all = vector(e, "q", &"?".repeat(want.len()));
    let p: N = v.inner_product_with_dense(&DenseVector::new(all.clone(), all.len()));
    e.prove("inner product with a dense vector", eq(&p, &dot(&all, &want)));
    for pattern in [0usize, 1, 2] {
        let other: Vec<N> = (0..want.len()).map(|i| if i % 3 == pattern || pattern == 2 && i % 2 == 0 { k(0) } else { k(i as i64 + 2) }).collect();
        let tuples: Vec<(usize, N)> = other.iter().cloned().enumerate().filter(|(_, x)| x.is_not_zero()).collect();
        let p: N = v.sparse_inner_product(SparseSliceIterator::new(&tuples));
        e.prove("sparse inner product", eq(&p, &dot(&other, &want)));
        let p: N = d.sparse_inner_product(SparseSliceIterator::new(&tuples));
        e.prove("dense times sparse inner product", eq(&p, &dot(&other, &want)));
    }
    let w2: SV = want.iter().cloned().collect();
    e.prove("equal to the same vector", Fm::bool(w2 == v));
}

fn dense_of(m: usize, n: usize, by_major: Vec<Vec<(usize, N)>>, rows: bool) -> Option<Vec<Vec<N>>> {
    let mut out = vec![vec![k(0); n]; m];
    for (i, x) in by_major.into_iter().enumerate() {
        for (j, v) in x {
            let (r, c) = if rows { (i, j) } else { (j, i) };
            if r >= m || c >= n {
                return None;
            }
            out[r][c] = v;
        }
    }
    Some(out)
}
fn same_table(e: &E, tag: &str, dims: (usize, usize), by_major: Vec<Vec<(usize, N)>>, rows: bool, size: usize, want: &(usize, usize, Vec<Vec<N>>)) {
    let (m, n, w) = want;
    let ok = dims == (*m, *n)
        && by_major.len() == if rows { *m } else { *n }
        && by_major.iter().all(|v| v.windows(2).all(|w| w[0].0 < w[1].0))
        && by_major.iter().map(|v| v.len()).sum::<usize>() == size;
    e.prove(&format!("{tag}: shape"), Fm::bool(ok));
    let nonzeros: Vec<N> = by_major.iter().flatten().map(|x| x.1.clone()).collect();
    match dense_of(*m, *n, by_major, rows) {
        None => e.prove(&format!("{tag}: inside the bounds"), Fm::F),
        Some(d) => {
            let mut f: Vec<F> = nonzeros.into_iter().map(|x| Fm::Sg(x, NEG | POS)).collect();
            for i in 0..*m {
                for j in 0..*n {
                    f.push(eq(&d[i][j], &w[i][j]));
                }
            }
            e.prove(&format!("{tag}: entries"), Fm::And(f));
        }
    }
}
type Table = (usize, usize, Vec<Vec<N>>);
type CM = SparseMatrix<N, N, ColumnMajor>;
type RM = SparseMatrix<N, N, RowMajor>;

fn table(e: &E, name: &str, n: usize, rows: &[String]) -> Table {
    (rows.len(), n, rows.iter().enumerate().map(|(i, r)| vector(e, &format!("{name}{i}_"), r)).collect())
}
fn cm(t: &Table) -> CM {
    ColumnMajor::new((0..t.1).map(|j| (0..t.0).filter(|&i| t.2[i][j].is_not_zero()).map(|i| (i, t.2[i][j].clone())).collect()).collect(), t.0, t.1)
}
fn rm(t: &Table) -> RM {
    RowMajor::new(t.2.iter().map(|r| (0..t.1).filter(|&j| r[j].is_not_zero()).map(|j| (j, r[j].clone())).collect()).collect(), t.0, t.1)
}
fn same_cm(e: &E, tag: &str, a: &CM, t: &Table) {
    let cols = a.iter_columns().map(|c| c.clone()).collect();
    same_table(e, &format!("{tag} by column"), (a.nr_rows(), a.nr_columns()), cols, false, a.size(), t);
    let cols = (0..a.nr_columns()).map(|j| a.iter_column(j).cloned().collect()).collect();
    same_table(e, &format!("{tag} by iter_column"), (a.nr_rows(), a.nr_columns()), cols, false, a.size(), t);
    let r: SparseMatrix<&N, N, RowMajor> = SparseMatrix::from_column_major(a);
    let rows = r.data.iter().map(|c| c.iter().map(|(i, x)| (*i, (*x).clone())).collect()).collect();
    same_table(e, &format!("{tag} row major copy"), (r.nr_rows(), r.nr_columns()), rows, true, r.size(), t);
}
fn same_rm(e: &E, tag: &str, a: &RM, t: &Table) {
    let rows = a.iter_rows().map(|c| c.clone()).collect();
    same_table(e, &format!("{tag} by row"), (a.nr_rows(), a.nr_columns()), rows, true, a.size(), t);
    let rows = (0..a.nr_rows()).map(|j| a.iter_row(j).cloned().collect()).collect();
    same_table(e, &format!("{tag} by iter_row"), (a.nr_rows(), a.nr_columns()), rows, true, a.size(), t);
    let r: SparseMatrix<&N, N, ColumnMajor> = CM::from_row_ordered_tuples_although_this_is_expensive(&a.data, a.nr_columns());
    let cols = r.data.iter().map(|c| c.iter().map(|(i, x)| (*i, (*x).clone())).collect()).collect();
    same_table(e, &format!("{tag} column major copy"), (r.nr_rows(), r.nr_columns()), cols, false, r.size(), t);
}

pub fn v02(e: &E, n: usize, start: &[String], ops: &[MOp]) {
    let mut t = table(e, "a", n, start);
    let mut c = cm(&t);
    let mut r = rm(&t);
    same_cm(e, "start", &c, &t);
    same_rm(e, "start", &r, &t);
    // From rows of numbers
    let c2: CM = ColumnMajor::from_test_data::<N, N, N>(&t.2, n);
    same_cm(e, "from rows", &c2, &t);
    let r2: RM = RowMajor::from_test_data::<N, N, N>(&t.2, n);
    same_rm(e, "from rows", &r2, &t);
    for (s, op) in ops.iter().enumerate() {
        let tag = format!("{op:?}");
        match op {
            MOp::RemoveRows(indices) => {
                c.remove_rows_although_this_matrix_is_column_major(indices);
                r.remove_rows(indices);
                let rows = (0..t.0).filter(|i| !indices.contains(i)).map(|i| t.2[i].clone()).collect::<Vec<_>>();
                t = (rows.len(), t.1, rows);
            }
            MOp::RemoveColumns(indices) => {
                c.remove_columns(indices);
                r.remove_columns_although_this_matrix_is_row_ordered(indices);
                t.2 = t.2.iter().map(|r| (0..t.1).filter(|j| !indices.contains(j)).map(|j| r[j].clone()).collect()).collect();
                t.1 -= indices.len();
            }
            MOp::Set(i, j) => {
                let x = nonzero(e, &format!("s{s}"));
                c.set_value(*i, *j, x.clone());
                r.set_value(*i, *j, x.clone());
                t.2[*i][*j] = x;
            }
            MOp::Signs(rows) => {
                let set: HashSet<usize> = rows.iter().copied().collect();
                c.change_row_signs(&set);
                for &i in rows {
                    for x in t.2[i].iter_mut() {
                        *x = -x.clone();
                    }
                }
                r = rm(&t);
            }
            MOp::Below(pattern) => {
                let o = table(e, &format!("o{s}_"), t.1, pattern);
                r = r.concatenate_vertically(rm(&o));
                t.0 += o.0;
                t.2.extend(o.2);
                c = cm(&t);
            }
            MOp::Right(pattern) => {
                let cols = pattern.first().map_or(0, |p| p.len());
                let o = table(e, &format!("o{s}_"), cols, pattern);
                c = c.concatenate_horizontally(cm(&o));
                t.1 += cols;
                t.2.iter_mut().zip(o.2).for_each(|(a, b)| a.extend(b));
                r = rm(&t);
            }
        }
        same_cm(e, &tag, &c, &t);
        same_rm(e, &tag, &r, &t);
    }
    e.outcome("done");
}
pub fn identity(e: &E, n: usize) {
    let t: Table = (n, n, (0..n).map(|i| (0..n).map(|j| k((i == j) as i64)).collect()).collect());
    same_cm(e, "identity", &<ColumnMajor as MatrixOrder>::identity::<N, N>(n), &t);
    same_rm(e, "identity", &<RowMajor as MatrixOrder>::identity::<N, N>(n), &t);
    e.outcome("done");
}
