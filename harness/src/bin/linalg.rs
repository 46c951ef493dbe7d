//! V01, V02: vectors and matrices.
use std::sync::Arc;

use relp_verif::explore::{Family, Request, Scenario, main_entry};
use relp_verif::lpq::*;
use relp_verif::{scenario, sides};

sides!("../scn/common.rs", "../scn/linalg.rs");

const OPS: u64 = 3_000_000;

fn pattern(rng: &mut Rng, n: usize, symbols: &mut i64) -> String {
    let density = rng.range(1, 9) as u64;
    (0..n)
        .map(|_| {
            if !rng.chance(density, 10) {
                '0'
            } else if *symbols > 0 && rng.chance(2, 3) {
                *symbols -= 1;
                *pick(rng, &['x', 'x', '?'])
            } else {
                *pick(rng, &['1', '-', '2'])
            }
        })
        .collect()
}
fn subset(rng: &mut Rng, n: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    while v.len() > max || (!v.is_empty() && rng.chance(1, 2)) {
        v.remove(rng.below(v.len() as u64) as usize);
    }
    v
}

fn v01(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 31);
    let mut out = vec![];
    for i in 0..if t { 6000 } else { 1500 } {
        let mut n = rng.range(1, if t { 9 } else { 6 }) as usize;
        let mut budget = 4;
        let start = pattern(&mut rng, n, &mut budget);
        let mut ops = vec![];
        match rng.below(4) {
            0 => ops.push(VOp::FromIter),
            1 => ops.push(VOp::Unit(rng.below(n as u64) as usize)),
            _ => {}
        }
        for _ in 0..rng.range(1, if t { 5 } else { 3 }) {
            ops.push(match rng.below(11) {
                0 | 1 => VOp::AddMultiple(pattern(&mut rng, n, &mut budget)),
                2 | 3 => VOp::AddMultipleBy(*pick(&mut rng, &[1, -1, 3, -2]), pattern(&mut rng, n, &mut budget)),
                4 => VOp::Set(rng.below(n as u64) as usize),
                5 => VOp::Shift(rng.below(n as u64) as usize),
                6 => VOp::Scale,
                7 => VOp::Divide,
                8 => {
                    n += 1;
                    VOp::Push
                }
                9 => {
                    let x = rng.range(1, 3) as usize;
                    n += x;
                    VOp::Extend(x)
                }
                _ => {
                    let s = subset(&mut rng, n, n - 1);
                    n -= s.len();
                    VOp::Remove(s)
                }
            });
        }
        let (start, ops) = (Arc::new(start), Arc::new(ops));
        out.push(scenario!(format!("v{i}-{start}-{}", ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("-").replace(' ', "")), if t { 400 } else { 80 }, OPS,
            |e, start, ops| side => side::v01(e, &start, &ops)));
    }
    out
}
fn v02(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 32);
    let mut out = vec![];
    for n in 1..=4usize {
        out.push(scenario!(format!("identity{n}"), 5, OPS, |e, n| side => side::identity(e, n)));
    }
    for i in 0..if t { 8000 } else { 2000 } {
        let mut m = rng.range(1, if t { 5 } else { 4 }) as usize;
        let mut n = rng.range(1, if t { 6 } else { 4 }) as usize;
        let n0 = n;
        let mut budget = 3;
        let start: Vec<String> = (0..m).map(|_| pattern(&mut rng, n, &mut budget)).collect();
        let mut ops = vec![];
        for _ in 0..rng.range(1, if t { 5 } else { 3 }) {
            ops.push(match rng.below(6) {
                0 if m > 0 => {
                    let s = subset(&mut rng, m, m);
                    m -= s.len();
                    MOp::RemoveRows(s)
                }
                1 if n > 0 => {
                    let s = subset(&mut rng, n, n);
                    n -= s.len();
                    MOp::RemoveColumns(s)
                }
                2 | 3 if m > 0 && n > 0 => {
                    if rng.chance(1, 2) {
                        MOp::Set(rng.below(m as u64) as usize, rng.below(n as u64) as usize)
                    } else {
                        MOp::Signs(subset(&mut rng, m, m))
                    }
                }
                4 if m > 0 => {
                    let x = rng.range(1, 2) as usize;
                    n += x;
                    MOp::Right((0..m).map(|_| pattern(&mut rng, x, &mut budget)).collect())
                }
                _ => {
                    let x = rng.range(1, 2) as usize;
                    m += x;
                    MOp::Below((0..x).map(|_| pattern(&mut rng, n, &mut budget)).collect())
                }
            });
        }
        let (start, ops) = (Arc::new(start), Arc::new(ops));
        out.push(scenario!(format!("m{i}-{}-{}", start.join("."), ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("-").replace(' ', "").replace('"', "")), if t { 200 } else { 60 }, OPS,
            |e, start, ops| side => side::v02(e, n0, &start, &ops)));
    }
    out
}

fn scenarios(req: &Request) -> Vec<Scenario> {
    match req.property.as_str() {
        "V01" => v01(req),
        _ => v02(req),
    }
}

fn describe(req: &Request) -> (Vec<&'static str>, String, Vec<&'static str>) {
    let t = req.thorough();
    if req.property == "V01" {
        (
            vec![
                "SparseVector::{new, from_iter, standard_basis_vector, add_multiple_of_row, set, get, shift_value, element_wise_multiply, element_wise_divide, push_value, extend, remove_indices, sparse_inner_product, inner_product_with_dense, squared_norm, len, size, Column::iter}",
                "DenseVector::{new, constant, set, get, push_value, extend_with_values, remove_indices, sparse_inner_product, inner, inner_mut}",
            ],
            format!("lengths 1-{}, random sparsity patterns with up to 4 symbolic entries (any rational, cancellation included), sequences of 1-{} operations with symbolic operands", if t { 9 } else { 6 }, if t { 5 } else { 3 }),
            vec!["operands meet the documented preconditions (nonzero factor, sorted unique indices, equal lengths)"],
        )
    } else {
        (
            vec![
                "SparseMatrix::{from_major_ordered_tuples, from_minor_ordered_tuples, from_column_major, from_row_ordered_tuples_although_this_is_expensive, concatenate_vertically, concatenate_horizontally, remove_rows, remove_columns, remove_rows_although_this_matrix_is_column_major, remove_columns_although_this_matrix_is_row_ordered, set_value, change_row_signs, iter_columns, iter_column, iter_rows, iter_row, nr_rows, nr_columns, size}",
                "MatrixOrder::{new, from_test_data, identity} for RowMajor and ColumnMajor",
            ],
            format!("up to {} by {} at the start, random sparsity patterns with up to 3 symbolic entries, sequences of 1-{} operations", if t { 5 } else { 4 }, if t { 6 } else { 4 }, if t { 5 } else { 3 }),
            vec!["operands meet the documented preconditions (nonzero values, sorted unique indices, matching sizes)"],
        )
    }
}

fn main() {
    main_entry(Family { scenarios, describe })
}
