//! L01-L04: the basis inverse engines.
use std::sync::Arc;

use relp_verif::explore::{Family, Request, Scenario, main_entry};
use relp_verif::lpq::*;
use relp_verif::{scenario, sides};

sides!("../scn/common.rs", "../scn/simplex.rs", "../scn/dense.rs", "../scn/solve.rs", "../scn/tableau.rs", "../scn/inverse.rs");

const OPS: u64 = 3_000_000;

type Mat = Vec<Vec<V>>;

/// Regular matrices with a random number of nonzeros.
fn regular(rng: &mut Rng, m: usize, density: u64) -> Vec<Vec<i64>> {
    loop {
        let mut a: Vec<Vec<i64>> = (0..m)
            .map(|_| (0..m).map(|_| if rng.chance(density, 10) { *pick(rng, &[1, 1, 2, -1, 3, -2, 5, -3]) } else { 0 }).collect())
            .collect();
        // Sparse matrices are rarely regular by chance: put in a random transversal
        let mut perm: Vec<usize> = (0..m).collect();
        for i in (1..m).rev() {
            perm.swap(i, rng.below(i as u64 + 1) as usize);
        }
        for i in 0..m {
            if a[i][perm[i]] == 0 && rng.chance(4, 5) {
                a[i][perm[i]] = *pick(rng, &[1, 2, -1, -3]);
            }
        }
        if invert(&to_q(&a)).is_some() {
            return a;
        }
    }
}
/// Replace `count` entries by symbols; `zero_too`: also structural zeros may become symbolic.
fn symbols(rng: &mut Rng, a: &[Vec<i64>], count: usize, name: &'static str, free: bool) -> Mat {
    let mut v = rows_v(a);
    let mut spots: Vec<(usize, usize)> = (0..a.len())
        .flat_map(|i| (0..a[i].len()).map(move |j| (i, j)))
        .filter(|&(i, j)| free || a[i][j] != 0)
        .collect();
    for k in 0..count {
        if spots.is_empty() {
            break;
        }
        let (i, j) = spots.swap_remove(rng.below(spots.len() as u64) as usize);
        v[i][j] = if free { V::Free(name, k) } else { V::NonZero(name, k) };
    }
    v
}

fn l01(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 21);
    let mut out = vec![];
    // All entries symbolic
    for m in 1..=2 {
        for lu in [true, false] {
            let mut v = vec![vec![V::K(0); m]; m];
            for (i, r) in v.iter_mut().enumerate() {
                for (j, x) in r.iter_mut().enumerate() {
                    *x = V::Free("a", i * m + j);
                }
            }
            let v = Arc::new(v);
            out.push(scenario!(format!("all-m{m}-{}", engine(lu)), 500, OPS, |e, v| side => side::l01(e, &v, lu, m < 2, false)));
        }
    }
    // Every 0/1 pattern of order 3 would be 512: a selection of patterns with a few symbolic entries
    for i in 0..if t { 600 } else { 120 } {
        let m = rng.range(2, if t { 5 } else { 4 }) as usize;
        let density = rng.range(2, 9) as u64;
        let a = regular(&mut rng, m, density);
        let free = rng.chance(1, 2);
        let count = rng.range(1, if m <= 3 { 3 } else { 2 }) as usize;
        let v = Arc::new(symbols(&mut rng, &a, count, "a", free));
        for lu in [true, false] {
            out.push(scenario!(format!("sym{i}-m{m}-{}", engine(lu)), if t { 400 } else { 100 }, OPS,
                |e, v| side => side::l01(e, &v, lu, false, false)));
        }
    }
    // Concrete entries, larger, with a symbolic column to multiply
    for i in 0..if t { 300 } else { 60 } {
        let m = rng.range(2, if t { 10 } else { 7 }) as usize;
        let density = rng.range(1, 8) as u64;
        let a = regular(&mut rng, m, density);
        let v = Arc::new(rows_v(&a));
        for lu in [true, false] {
            out.push(scenario!(format!("fix{i}-m{m}-{}", engine(lu)), if t { 200 } else { 50 }, OPS,
                |e, v| side => side::l01(e, &v, lu, true, true)));
        }
    }
    out
}

/// A start, replacement columns (as a matrix) and positions.
fn history(rng: &mut Rng, m: usize, len: usize) -> (Option<Vec<Vec<i64>>>, Vec<Vec<i64>>, Vec<usize>) {
    let start = if rng.chance(1, 3) { None } else { let d = rng.range(2, 8) as u64; Some(regular(rng, m, d)) };
    let mut cur: Vec<Vec<i64>> = match &start {
        Some(a) => a.clone(),
        None => (0..m).map(|i| (0..m).map(|j| (i == j) as i64).collect()).collect(),
    };
    let mut with = vec![vec![]; m];
    let mut at = vec![];
    let density = rng.range(2, 9) as u64;
    let small: &[i64] = if len > 10 { &[1, -1] } else { &[1, 1, 2, -1, -2, 3] };
    while at.len() < len {
        let row = rng.below(m as u64) as usize;
        let c: Vec<i64> = (0..m).map(|_| if rng.chance(density, 10) { *pick(rng, small) } else { 0 }).collect();
        let mut next = cur.clone();
        for i in 0..m {
            next[i][row] = c[i];
        }
        if invert(&to_q(&next)).is_none() {
            continue;
        }
        cur = next;
        for i in 0..m {
            with[i].push(c[i]);
        }
        at.push(row);
    }
    (start, with, at)
}

fn l02(req: &Request, both: bool) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, if both { 24 } else { 22 });
    let mut out = vec![];
    // symbolic entries in the replacement columns or the start
    for i in 0..if t { 600 } else { 150 } {
        let m = rng.range(1, if t { 4 } else { 3 }) as usize;
        let len = rng.range(1, 4) as usize;
        let (start, with, at) = history(&mut rng, m, len);
        let mode = rng.below(3);
        let free = rng.chance(1, 2);
        let count = if m == 1 || free { 2 } else { rng.range(1, 3) as usize };
        let with = Arc::new(if mode == 0 { rows_v(&with) } else { symbols(&mut rng, &with, count, "n", free) });
        let start = Arc::new(start.map(|a| rows_v(&a)));
        let at = Arc::new(at);
        if both {
            out.push(scenario!(format!("sym{i}-m{m}-x{len}"), if t { 300 } else { 100 }, OPS,
                |e, start, with, at| side => side::l04(e, start.as_deref(), &with, &at, mode == 0)));
        } else {
            for lu in [true, false] {
                out.push(scenario!(format!("sym{i}-m{m}-x{len}-{}", engine(lu)), if t { 300 } else { 100 }, OPS,
                    |e, start, with, at| side => side::l02(e, start.as_deref(), &with, &at, lu, 0, mode == 0, false)));
            }
        }
    }
    // longer, larger, concrete; multiplied with a symbolic column
    for i in 0..if t { 300 } else { 60 } {
        let m = rng.range(2, if t { 7 } else { 5 }) as usize;
        let len = rng.range(4, if t { 20 } else { 10 }) as usize;
        let (start, with, at) = history(&mut rng, m, len);
        let with = Arc::new(rows_v(&with));
        let start = Arc::new(start.map(|a| rows_v(&a)));
        let at = Arc::new(at);
        if both {
            out.push(scenario!(format!("fix{i}-m{m}-x{len}"), if t { 100 } else { 30 }, OPS,
                |e, start, with, at| side => side::l04(e, start.as_deref(), &with, &at, true)));
        } else {
            for lu in [true, false] {
                out.push(scenario!(format!("fix{i}-m{m}-x{len}-{}", engine(lu)), if t { 100 } else { 30 }, OPS,
                    |e, start, with, at| side => side::l02(e, start.as_deref(), &with, &at, lu, 0, true, false)));
            }
        }
    }
    out
}

fn l03(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 23);
    let mut out = vec![];
    // The engines alone: long histories, rebuilt when they ask for it
    for i in 0..if t { 80 } else { 16 } {
        let m = rng.range(2, if t { 5 } else { 4 }) as usize;
        let len = rng.range(33, if t { 70 } else { 40 }) as usize;
        let (start, mut with, at) = history(&mut rng, m, len);
        let sym = i % 2 == 0;
        let _ = &mut with;
        let mut w = rows_v(&with);
        if sym {
            // a symbol in the last columns only, after the rebuild
            let j = len - 1;
            let r = (0..m).find(|&r| with[r][j] != 0).unwrap();
            w[r][j] = V::NonZero("n", 0);
        }
        let (start, with, at) = (Arc::new(start.map(|a| rows_v(&a))), Arc::new(w), Arc::new(at));
        for lu in [true, false] {
            out.push(scenario!(format!("engine{i}-m{m}-x{len}-{}", engine(lu)), if t { 100 } else { 30 }, OPS,
                |e, start, with, at| side => side::l02(e, start.as_deref(), &with, &at, lu, 29, !sym, true)));
        }
    }
    // The whole maintained state
    for i in 0..if t { 120 } else { 30 } {
        let m = rng.range(2, if t { 5 } else { 4 }) as usize;
        let n = m + rng.range(2, 4) as usize;
        let a = random_matrix(&mut rng, m, n);
        let bs = Bases::new(to_q(&a), 5000);
        let mut cfg = EqCfg { a: rows_v(&a), b: nonneg_b(m), c: free_c(n), pivots: vec![] };
        cfg.pivots = start(&mut rng, &bs);
        let len = rng.range(33, if t { 68 } else { 36 }) as usize;
        let st = steps(&mut rng, &bs, &cfg.pivots, len);
        let (cfg, st) = (Arc::new(cfg), Arc::new(st));
        for lu in [true, false] {
            out.push(scenario!(format!("state{i}-m{m}n{n}-x{}-{}", st.len(), engine(lu)), 30, OPS,
                |e, cfg, st| side => side::l03(e, &cfg, &st, lu, 30)));
        }
    }
    out
}

fn l04(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut out = l02(req, true);
    let mut rng = Rng::new(req.seed, 25);
    let mut i = 0;
    while i < if t { 150 } else { 30 } {
        let m = rng.range(1, 3) as usize;
        let n = rng.range(2, 4) as usize;
        let units = rng.below(m as u64 + 1) as usize;
        if n + units < m {
            continue;
        }
        let base = random_eq(&mut rng, m, n, units);
        let base = if rng.chance(1, 4) { add_dependent(&mut rng, &base, 1).0 } else { base };
        i += 1;
        for what in ["b", "c"] {
            let cfg = Arc::new(sym_eq(base.clone(), what));
            for kind in [0u8, 1] {
                out.push(scenario!(format!("solve{i}-m{m}n{n}s{units}-{what}-{kind}"), if t { 400 } else { 100 }, OPS,
                    |e, cfg| side => side::l04_solve(e, &cfg, kind)));
            }
        }
    }
    out
}

fn scenarios(req: &Request) -> Vec<Scenario> {
    match req.property.as_str() {
        "L01" => l01(req),
        "L02" => l02(req, false),
        "L03" => l03(req),
        _ => l04(req),
    }
}

fn describe(req: &Request) -> (Vec<&'static str>, String, Vec<&'static str>) {
    let t = req.thorough();
    let mut f = vec![
        "LUDecomposition::{identity, invert, rows, change_basis, left_multiply_by_basis_inverse, right_multiply_by_basis_inverse, generate_element, basis_inverse_row, should_refactor, m}",
        "Markowitz::choose_pivot, EtaFile::*, RotateToBackPermutation::*, FullPermutation::*",
        "BasisInverseRows::{identity, invert, change_basis, left/right_multiply_by_basis_inverse, generate_element, basis_inverse_row}",
    ];
    if req.property == "L03" {
        f.push("Carry::change_basis with refactorization; Tableau::bring_into_basis");
    }
    if req.property == "L04" {
        f.push("SolveRelaxation::solve_relaxation with both engines");
    }
    let bounds = match req.property.as_str() {
        "L01" => format!("order 1 and 2 with all entries symbolic; order 2-{} with 1-3 symbolic entries (over all rationals, determinant nonzero); order 2-{} with concrete entries times a column over all rationals; every unit vector, two concrete columns", if t { 5 } else { 4 }, if t { 10 } else { 7 }),
        "L02" | "L04" => format!("order 1-{} with 1-4 replacements at arbitrary positions and up to 3 symbolic entries in the replacement columns; order 2-{} with up to {} replacements times a column over all rationals; from identity and from factorized starts", if t { 4 } else { 3 }, if t { 7 } else { 5 }, if t { 20 } else { 10 }),
        _ => format!("order 2-{}, {} exchanges (refactorization happens after 31), symbolic probe column or replacement entry at the engine level, symbolic right-hand side and costs at the level of the tableau; state compared after every exchange from number 29", if t { 5 } else { 4 }, if t { "33-70" } else { "33-40" }),
    };
    (f, bounds, vec![
        "the numeric type is replaced by rational functions over the inputs with the same field laws; the code is generic in it",
        "replacements keep the basis regular (pivot element nonzero), as the simplex method guarantees",
    ])
}

fn main() {
    main_entry(Family { scenarios, describe })
}
