//! S01-S06, S11, S12: whole simplex solves.
use std::sync::Arc;

use relp_verif::explore::{Family, Request, Scenario, main_entry};
use relp_verif::lpq::*;
use relp_verif::{scenario, sides};

sides!("../scn/common.rs", "../scn/simplex.rs", "../scn/dense.rs", "../scn/solve.rs");

const OPS: u64 = 3_000_000;

fn random_canon(rng: &mut Rng, n: usize, ne: usize, nr: usize, nu: usize, nl: usize, nb: usize) -> Canon {
    let kinds: Vec<Rk> = std::iter::repeat_n(Rk::Eq, ne)
        .chain(std::iter::repeat_n(Rk::Range, nr))
        .chain(std::iter::repeat_n(Rk::Le, nu))
        .chain(std::iter::repeat_n(Rk::Ge, nl))
        .collect();
    let rows: Vec<(Rk, Vec<i64>)> = kinds
        .iter()
        .map(|&kind| (kind, (0..n).map(|_| if rng.chance(3, 4) { *pick(rng, &[1, 1, 2, -1, 3, -2]) } else { 0 }).collect()))
        .collect();
    let mut u = vec![None; n];
    let mut left = nb;
    while left > 0 {
        let j = rng.below(n as u64) as usize;
        if u[j].is_none() {
            u[j] = Some(V::K(rng.range(1, 5)));
            left -= 1;
        }
    }
    Canon {
        n,
        b: rows.iter().map(|_| V::K(rng.range(0, 6))).collect(),
        r: (0..nr).map(|_| V::K(rng.range(1, 4))).collect(),
        u,
        c: (0..n).map(|_| V::K(rng.range(-3, 3))).collect(),
        rows,
    }
}

/// Replace parts of the data by symbolic inputs.
fn symbolic(mut p: Canon, what: &str) -> Canon {
    if what.contains('b') {
        for (i, b) in p.b.iter_mut().enumerate() {
            *b = V::NonNeg("b", i);
        }
        for (i, r) in p.r.iter_mut().enumerate() {
            *r = V::Pos("r", i);
        }
        for (i, u) in p.u.iter_mut().enumerate() {
            if u.is_some() {
                *u = Some(V::NonNeg("u", i));
            }
        }
    }
    if what.contains('z') {
        p.b.iter_mut().for_each(|b| *b = V::K(0));
    }
    if what.contains('c') {
        for (i, c) in p.c.iter_mut().enumerate() {
            *c = V::Free("c", i);
        }
    }
    p
}


/// Row kind mixes for the canonical form.
fn canon_shapes(rng: &mut Rng, count: usize, max_rows: i64, max_bases: usize, full_rank: bool) -> Vec<(String, Canon, Bases)> {
    let mut out = vec![];
    while out.len() < count {
        let n = rng.range(1, 4) as usize;
        let (mut ne, mut nr, mut nu, mut nl) = (0, 0, 0, 0);
        for _ in 0..rng.range(1, max_rows) {
            match rng.below(4) {
                0 => ne += 1,
                1 => nr += 1,
                2 => nu += 1,
                _ => nl += 1,
            }
        }
        let nb = rng.below(1 + n as u64) as usize;
        if full_rank && ne > n {
            continue;
        }
        let base = random_canon(rng, n, ne, nr, nu, nl, nb);
        let a = base.std_matrix();
        if a[0].len() > 12 {
            continue;
        }
        if full_rank && rank(&a) < a.len() {
            continue;
        }
        let bs = Bases::new(a, 5000);
        if bs.bases.len() > max_bases {
            continue;
        }
        out.push((format!("{}-v{n}e{ne}r{nr}u{nu}l{nl}b{nb}", out.len()), base, bs));
    }
    out
}

fn canonical(req: &Request) -> Vec<Scenario> {
    let mut out = vec![];
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 1);
    let shapes = canon_shapes(&mut rng, if t { 500 } else { 50 }, if t { 5 } else { 4 }, if t { 700 } else { 100 }, true);
    for (name, base, bs) in shapes {
        let small = bs.bases.len() <= if t { 40 } else { 9 };
        let bs = Arc::new(bs);
        for what in ["b", "c", "zc", "bc"] {
            if what == "bc" && !small {
                continue;
            }
            let cfg = Arc::new(symbolic(base.clone(), what));
            for lu in [true, false] {
                let p = req.property.clone();
                out.push(scenario!(
                    format!("{name}-{what}-{}", engine(lu)),
                    if t { 3000 } else { 100 }, OPS,
                    |e, p, cfg, bs| side => side::verdict(e, &p, &cfg, &bs, lu)
                ));
            }
        }
    }
    out
}

/// Programs with more rows and columns, of which one or two numbers are symbolic; around a point that is feasible.
fn large_canon(rng: &mut Rng, t: bool, dependent: bool) -> Canon {
    let n = rng.range(4, if t { 10 } else { 8 }) as usize;
    let m = rng.range(3, if t { 8 } else { 6 }) as usize;
    let x: Vec<i64> = (0..n).map(|_| rng.range(0, 3)).collect();
    let negative = rng.chance(2, 3);
    let mut kinds: Vec<usize> = (0..m).map(|_| *pick(rng, &[0, 1, 2, 2, 3])).collect();
    if dependent {
        kinds.extend([0, 0]);
    }
    kinds.sort();
    let mut rows: Vec<(Rk, Vec<i64>)> = vec![];
    let mut b = vec![];
    let mut r = vec![];
    let equalities = kinds.iter().filter(|&&k| k == 0).count();
    for kind in kinds {
        let mut row: Vec<i64> = (0..n)
            .map(|_| if rng.chance(1, 2) { *pick(rng, if negative { &[1, 1, 2, 3, -1, -2] } else { &[1, 1, 2, 3, 1, 4] }) } else { 0 })
            .collect();
        let mut act: i64 = row.iter().zip(&x).map(|(a, x)| a * x).sum();
        if kind == 0 && dependent && rows.len() + 1 >= equalities.max(2) {
            // A combination of the others
            let mut sum = vec![0; n];
            for other in &rows {
                let f = *pick(rng, &[0, 1, 1, -1]);
                sum.iter_mut().zip(&other.1).for_each(|(s, a)| *s += f * a);
            }
            act = sum.iter().zip(&x).map(|(a, x)| a * x).sum();
            row = sum;
        }
        if act < 0 {
            row.iter_mut().for_each(|a| *a = -*a);
            act = -act;
        }
        rows.push(([Rk::Eq, Rk::Range, Rk::Le, Rk::Ge][kind], row));
        b.push(V::K(match kind {
            0 => act,
            1 => act + rng.range(0, 2),
            2 => act + rng.range(0, 4),
            _ => (act - rng.range(0, 3)).max(0),
        }));
        if kind == 1 {
            r.push(V::K(rng.range(2, 4)));
        }
    }
    let mut p = Canon {
        n,
        b,
        r,
        u: x.iter().map(|x| if rng.chance(1, 3) { Some(V::K(x + rng.range(0, 3))) } else { None }).collect(),
        c: (0..n).map(|_| V::K(if negative { rng.range(-1, 4) } else { rng.range(-4, 4) })).collect(),
        rows,
    };
    let from = if dependent && equalities < p.b.len() { equalities } else { 0 };
    for _ in 0..rng.range(1, 2) {
        let bounded: Vec<usize> = (0..n).filter(|&j| p.u[j].is_some()).collect();
        if !bounded.is_empty() && rng.chance(1, 3) {
            let j = *pick(rng, &bounded);
            p.u[j] = Some(V::NonNeg("u", j));
        } else {
            let i = rng.range(from as i64, p.b.len() as i64 - 1) as usize;
            p.b[i] = V::NonNeg("b", i);
        }
    }
    p
}

fn large(req: &Request, salt: u64, count: usize) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, salt);
    let mut out = vec![];
    let quiet = matches!(req.property.as_str(), "S11" | "S12");
    for i in 0..if t { 8 * count } else { count } {
        let dependent = req.property == "S05" || quiet && i % 4 == 0;
        let mut base = large_canon(&mut rng, t, dependent);
        if quiet && i % 3 == 0 {
            // Highly degenerate
            base.b.iter_mut().for_each(|b| *b = V::K(0));
            for _ in 0..2 {
                let j = rng.below(base.n as u64) as usize;
                base.c[j] = V::Free("c", j);
            }
        }
        let cfg = Arc::new(base);
        let lu = i % 4 != 3;
        let p = req.property.clone();
        let name = format!("large{i}-v{}m{}-{}", cfg.n, cfg.rows.len(), engine(lu));
        out.push(scenario!(name, if t { 60 } else { 12 }, OPS, |e, p, cfg| side => side::large(e, &p, &cfg, lu)));
    }
    out
}

/// Equality form with unit columns in some rows.
fn s05(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 5);
    let mut out = vec![];
    let count = if t { 250 } else { 40 };
    for i in 0..count {
        let m = rng.range(1, 3) as usize;
        let n = rng.range(m as i64, 4) as usize;
        let units = rng.below(m as u64 + 1) as usize;
        let base = random_eq(&mut rng, m, n, units);
        let extra = rng.range(1, 2) as usize;
        let (dep, rows) = add_dependent(&mut rng, &base, extra);
        let bs = Arc::new(Bases::new(dep.matrix(), 2000));
        let mm = rows.len();
        let total = rows[0].len();
        // Consistent right-hand sides: A x for some x >= 0, with the rows turned so that A x >= 0 is possible
        let mut consistent = dep.clone();
        consistent.b = rows.iter().map(|r| V::Lin(r.clone(), "x")).collect();
        let mut point = dep.clone();
        let x0: Vec<i64> = (0..total).map(|_| rng.range(0, 2)).collect();
        let mut flipped = rows.clone();
        point.b = flipped
            .iter_mut()
            .map(|r| {
                let v: i64 = r.iter().zip(&x0).map(|(a, x)| a * x).sum();
                if v < 0 {
                    r.iter_mut().for_each(|x| *x = -*x);
                }
                V::K(v.abs())
            })
            .collect();
        point.a = rows_v(&flipped);
        let point_bs = Arc::new(Bases::new(point.matrix(), 2000));
        point.c = free_c(total);
        point.pivots.retain(|&(r, j)| flipped[r][j] == 1 && (0..mm).all(|q| q == r || flipped[q][j] == 0));
        let mut cfgs = vec![("b", sym_eq(dep.clone(), "b"), bs.clone()), ("x", consistent, bs.clone()), ("c", point, point_bs)];
        if bs.bases.len() <= 10 {
            cfgs.push(("bc", sym_eq(dep.clone(), "bc"), bs.clone()));
        }
        for (what, cfg, bs) in cfgs {
            let cfg = Arc::new(cfg);
            for lu in [true, false] {
                for kind in [0u8, 1] {
                    if kind == 1 && cfg.pivots.is_empty() {
                        continue;
                    }
                    out.push(scenario!(
                        format!("{i}-m{m}+{extra}n{total}-{what}-{}-{}", ["none", "part"][kind as usize], engine(lu)),
                        if t { 1000 } else { 150 }, OPS,
                        |e, cfg, bs| side => side::dense_verdict(e, &cfg, &bs, kind, lu)
                    ));
                }
            }
        }
    }
    // Through the canonical form: equality rows that depend on each other, next to other rows
    for i in 0..if t { 250 } else { 50 } {
        let n = rng.range(2, 3) as usize;
        let nr = rng.below(2) as usize;
        let nu = rng.below(2) as usize;
        let nl = rng.below(2) as usize;
        let nb = rng.below(2) as usize;
        let mut base = random_canon(&mut rng, n, 2, nr, nu, nl, nb);
        let f = *pick(&mut rng, &[1, 2, -1, 0]);
        let g = *pick(&mut rng, &[0, 0, 1]);
        let dep: Vec<i64> = (0..n).map(|j| f * base.rows[0].1[j] + g * base.rows[1].1[j]).collect();
        let at = rng.below(3) as usize;
        base.rows.insert(at, (Rk::Eq, dep));
        base.b.insert(at, V::K(0));
        let bs = Arc::new(Bases::new(base.std_matrix(), 3000));
        if bs.bases.len() > 200 {
            continue;
        }
        for what in ["b", "zc"] {
            let cfg = Arc::new(symbolic(base.clone(), what));
            for lu in [true, false] {
                out.push(scenario!(
                    format!("canon{i}-v{n}e3u{nu}l{nl}b{nb}-{what}-{}", engine(lu)),
                    if t { 1000 } else { 150 }, OPS,
                    |e, cfg, bs| side => side::canon_judge(e, &cfg, &bs, lu)
                ));
            }
        }
    }
    out
}

fn s06(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 6);
    let mut out = vec![];
    let mut i = 0;
    while i < if t { 250 } else { 40 } {
        let m = rng.range(1, 3) as usize;
        let n = rng.range(2, 4) as usize;
        let units = rng.below(m as u64 + 1) as usize;
        if n + units < m {
            continue;
        }
        let base = random_eq(&mut rng, m, n, units);
        let base = if rng.chance(1, 5) { add_dependent(&mut rng, &base, 1).0 } else { base };
        let bs = Arc::new(Bases::new(base.matrix(), 1000));
        i += 1;
        for what in ["b", "c", "zc"] {
            let cfg = Arc::new(sym_eq(base.clone(), what));
            for lu in [true, false] {
                out.push(scenario!(
                    format!("{i}-m{m}n{n}s{units}-{what}-{}", engine(lu)),
                    if t { 1000 } else { 120 }, OPS,
                    |e, cfg, bs| side => side::strategies(e, &cfg, &bs, lu)
                ));
            }
        }
    }
    out
}

/// S11 and S12: unusual and degenerate shapes; the answers are not looked at, only that there is one.
fn quiet(req: &Request) -> Vec<Scenario> {
    let t = req.thorough();
    let mut rng = Rng::new(req.seed, 11);
    let mut out = vec![];
    let scale = if t { 8 } else { 1 };
    // Canonical, of every size starting from a single row
    for (name, base, _) in canon_shapes(&mut rng, 40 * scale, 3, 400, false) {
        for what in ["b", "c", "zc"] {
            let cfg = Arc::new(symbolic(base.clone(), what));
            for lu in [true, false] {
                out.push(scenario!(format!("canon{name}-{what}-{}", engine(lu)), if t { 1000 } else { 100 }, OPS,
                    |e, cfg| side => side::canon_quiet(e, &cfg, lu)));
            }
        }
    }
    // Single rows of every kind
    for kind in [Rk::Eq, Rk::Range, Rk::Le, Rk::Ge] {
        for row in [vec![1], vec![1, 2], vec![1, -1], vec![-1, -2], vec![0, 1], vec![0, 0]] {
            let n = row.len();
            let base = Canon {
                n,
                b: vec![V::K(2)],
                r: if kind == Rk::Range { vec![V::K(1)] } else { vec![] },
                u: vec![None; n],
                c: (0..n).map(|_| V::K(-1)).collect(),
                rows: vec![(kind, row.clone())],
            };
            for what in ["b", "c"] {
                let cfg = Arc::new(symbolic(base.clone(), what));
                for lu in [true, false] {
                    out.push(scenario!(format!("single-{kind:?}-{row:?}-{what}-{}", engine(lu)), 200, OPS,
                        |e, cfg| side => side::canon_quiet(e, &cfg, lu)));
                }
            }
        }
    }
    // Dense, any rank, all right-hand sides zero (degenerate everywhere) or symbolic
    let mut i = 0;
    while i < 40 * scale {
        let m = rng.range(1, 4) as usize;
        let n = rng.range(1, 4) as usize;
        let units = rng.below(m as u64 + 1) as usize;
        if n + units < m {
            continue;
        }
        let base = random_eq(&mut rng, m, n, units);
        let base = if rng.chance(1, 3) { add_dependent(&mut rng, &base, 1).0 } else { base };
        i += 1;
        for what in ["b", "c", "zc"] {
            let cfg = Arc::new(sym_eq(base.clone(), what));
            for lu in [true, false] {
                for kind in [0u8, 1] {
                    out.push(scenario!(format!("dense{i}-m{m}n{n}s{units}-{what}-{}-{}", kind, engine(lu)), if t { 500 } else { 60 }, OPS,
                        |e, cfg| side => side::dense_quiet(e, &cfg, kind, lu)));
                }
            }
        }
    }
    out
}

fn scenarios(req: &Request) -> Vec<Scenario> {
    match req.property.as_str() {
        "S05" => {
            let mut v = s05(req);
            v.extend(large(req, 21, 400));
            v
        }
        "S06" => s06(req),
        "S11" | "S12" => {
            let mut v = quiet(req);
            v.extend(large(req, 22, 500));
            v
        }
        _ => {
            let mut v = canonical(req);
            v.extend(large(req, 23, 800));
            v
        }
    }
}

fn describe(req: &Request) -> (Vec<&'static str>, String, Vec<&'static str>) {
    let t = req.thorough();
    let mut f = vec![
        "SolveRelaxation::solve_relaxation, phase_one::primal, remove_artificial_basis_variables, phase_two::primal",
        "Tableau::* (select_primal_pivot_row, bring_into_basis, generate_column, generate_element, relative_cost, current_bfs), Fully, Partially, NonArtificial",
        "Carry::*, LUDecomposition::*, BasisInverseRows::*, SteepestDescentAlongObjective::*",
        "RemoveRows (rank deficient programs)",
    ];
    if req.property != "S06" {
        f.push("MatrixData::{new, column, cost_value, right_hand_side, pivot_element_indices, reconstruct_solution}");
    } else {
        f.push("FirstProfitable, FirstProfitableWithMemory, SteepestDescentAlongVariable");
    }
    let bounds = match req.property.as_str() {
        "S05" => "1-3 independent equality rows with up to 7 columns, 1-2 dependent rows (zero, copies, combinations) at arbitrary positions, with and without supplied unit columns; canonical programs with three dependent equality rows next to inequality rows; for all right-hand sides >= 0 (consistent or not), for all consistent right-hand sides A x, for all costs, both engines".to_string(),
        "S06" => "1-3 equality rows, up to 7 columns, one in five with a dependent row; for all right-hand sides >= 0, all costs, all costs with right-hand side zero; four strategies, both engines".to_string(),
        "S11" | "S12" => "canonical programs with 1-3 rows of any kind, single rows of each kind (including zero rows), equality form programs of 1-4 rows, any rank; for all right-hand sides >= 0 / all costs / all costs with right-hand side zero (every basis degenerate); both engines; at most 3 000 000 symbolic operations and 40 s (quick) or 120 s (thorough) per path before the same input is run natively under a time limit".to_string(),
        _ => format!(
            "canonical programs with 1-4 variables, 1-{} rows of any mix of kinds, any subset of upper bounds, small integer coefficients from the seed, equality form of at most 12 columns and at most {} bases; for all right-hand sides, ranges and upper bounds (>= 0), for all costs, for all costs with right-hand side zero, and (at most {} bases) all of them at once; both engines; at most {} regions per scenario; larger programs of up to {} variables and {} rows, judged with symbolic points and multipliers",
            if t { 5 } else { 4 }, if t { 700 } else { 100 }, if t { 40 } else { 9 }, if t { 3000 } else { 100 }, if t { 10 } else { 8 }, if t { 10 } else { 8 }),
    };
    (f, bounds, vec![
        "the numeric type is replaced by rational functions over the inputs with the same field laws; the code is generic in it",
        "the oracle enumerates all bases of the concrete matrix, with right-hand sides and costs symbolic",
        "right-hand sides are nonnegative, as the constructors require",
    ])
}

fn main() {
    main_entry(Family { scenarios, describe })
}
