// The state of a tableau after any sequence of basis changes, and the selection rules.
use std::collections::HashSet;

/// Current basis, by position.
pub struct State<'d> {
    pub d: &'d Dn,
    pub cols: Vec<usize>,
    pub rows: Vec<usize>,
}

fn dn_entry(d: &Dn, i: usize, j: usize) -> N {
    d.cols[j].iter().find(|p| p.0 == i).map_or_else(|| k(0), |p| p.1.clone())
}

/// `sum_k g_k B_k = v`, row by row (the basis is invertible, so this determines `g`).
fn solves(st: &State, g: &[N], v: &dyn Fn(usize) -> N) -> F {
    let mut out: Vec<F> = vec![];
    for &i in &st.rows {
        let mut s = k(0);
        for (t, &j) in st.cols.iter().enumerate() {
            for (r, x) in &st.d.cols[j] {
                if *r == i {
                    s += x.clone() * &g[t];
                }
            }
        }
        out.push(eq(&s, &v(i)));
    }
    Fm::And(out)
}

/// Columns relative to the basis; proves that they are right on the way.
fn check_columns<'p, 'd: 'p, IM>(e: &E, tag: &str, t: &Tableau<IM, NonArtificial<'p, Full<'d>>>, st: &State) -> Vec<Vec<N>>
where
    IM: InverseMaintainer<F = N>,
{
    let mut all = vec![];
    let mut v: Vec<F> = vec![];
    let mut w: Vec<F> = vec![];
    for j in 0..st.d.n {
        let g = dense(&t.generate_column(j).into_column(), st.cols.len());
        v.push(solves(st, &g, &|i| dn_entry(st.d, i, j)));
        for i in 0..st.cols.len() {
            let x = t.generate_element(i, j).unwrap_or_else(|| k(0));
            w.push(eq(&x, &g[i]));
        }
        all.push(g);
    }
    e.prove(&format!("{tag}generated columns"), Fm::And(v));
    e.prove(&format!("{tag}generated elements"), Fm::And(w));
    all
}

fn check_state<'p, 'd: 'p, IM>(e: &E, tag: &str, t: &Tableau<IM, NonArtificial<'p, Full<'d>>>, st: &State) -> Vec<Vec<N>>
where
    IM: InverseMaintainer<F = N>,
{
    let d = st.d;
    let all = check_columns(e, tag, t, st);
    let xb: Vec<N> = st.cols.iter().map(|&j| t.variable_value(j)).collect();
    e.prove(&format!("{tag}basic values"), solves(st, &xb, &|i| d.b[i].clone()));
    let bfs = dense(&t.current_bfs(), d.n);
    let mut v: Vec<F> = vec![];
    for j in 0..d.n {
        match st.cols.iter().position(|&x| x == j) {
            Some(p) => v.push(eq(&bfs[j], &xb[p])),
            None => v.push(is0(&bfs[j])),
        }
        v.push(Fm::bool(t.is_in_basis(j) == st.cols.contains(&j)));
    }
    e.prove(&format!("{tag}basic solution"), Fm::And(v));
    let cb: Vec<N> = st.cols.iter().map(|&j| d.cost(j)).collect();
    e.prove(&format!("{tag}cost"), eq(&t.objective_function_value(), &dot(&cb, &xb)));
    let v: Vec<F> = (0..d.n).map(|j| eq(&t.relative_cost(j), &(d.cost(j) - dot(&cb, &all[j])))).collect();
    e.prove(&format!("{tag}reduced costs"), Fm::And(v));
    all
}

fn from_pivots<'p, 'd: 'p, IM: InverseMaintainer<F = N>>(
    p: &'p Full<'d>,
    pivots: &[(usize, usize)],
) -> Tableau<IM, NonArtificial<'p, Full<'d>>> {
    let im = IM::from_basis_pivots(pivots, p);
    let set: HashSet<usize> = pivots.iter().map(|x| x.1).collect();
    Tableau::new_with_inverse_maintainer(p, im, set)
}

fn basis_feasible(e: &E, o: &Oracle, cols: &[usize]) {
    let mut cols = cols.to_vec();
    cols.sort();
    let inv = &o.bs.bases.iter().find(|b| b.0 == cols).expect("start basis").1;
    e.assume(o.feasible_basis(inv));
}

/// S09: exchanges in given positions, whatever the signs (the state has to be exact anyway).
fn exchanges<IM: InverseMaintainer<F = N>>(e: &E, cfg: &EqCfg, steps: &[(usize, usize)], every: bool) {
    let d = Dn::new(e, cfg);
    let p = Full(&d);
    let mut t = from_pivots::<IM>(&p, &cfg.pivots);
    let mut sorted = cfg.pivots.clone();
    sorted.sort();
    let mut st = State { d: &d, cols: sorted.iter().map(|x| x.1).collect(), rows: (0..d.m).collect() };
    check_state(e, "start: ", &t, &st);
    for (k_, &(row, col)) in steps.iter().enumerate() {
        let info = t.generate_column(col);
        let element = t.generate_element(row, col).unwrap_or_else(|| k(0));
        e.assume(Fm::Sg(element, NEG | POS));
        let cost = t.relative_cost(col);
        let leaving = st.cols[row];
        let change = t.bring_into_basis(col, row, info, cost);
        st.cols[row] = col;
        e.prove("leaving column", Fm::bool(change.leaving_column_index == leaving && change.pivot_row_index == row && change.pivot_column_index == col));
        if every || k_ + 1 == steps.len() {
            check_state(e, &format!("after {} exchanges: ", k_ + 1), &t, &st);
        }
    }
    e.outcome("done");
}
pub fn s09(e: &E, cfg: &EqCfg, steps: &[(usize, usize)], lu: bool, every: bool) {
    if lu { exchanges::<Lu>(e, cfg, steps, every) } else { exchanges::<Rows>(e, cfg, steps, every) }
}

/// S07 and S08: run with a rule for a number of steps from a feasible start, judging every choice.
fn run_rule<IM, R>(e: &E, prop: &str, cfg: &EqCfg, o: &Oracle, d: &Dn, rule_name: &str, steps: usize, track: bool)
where
    IM: InverseMaintainer<F = N>,
    R: PivotRule<N>,
{
    let p = Full(d);
    let mut t = from_pivots::<IM>(&p, &cfg.pivots);
    let mut sorted = cfg.pivots.clone();
    sorted.sort();
    let mut st = State { d, cols: sorted.iter().map(|x| x.1).collect(), rows: (0..d.m).collect() };
    basis_feasible(e, o, &st.cols);
    let mut rule = R::new(&t);
    for step in 0..steps {
        let choice = rule.select_primal_pivot_column(&t);
        // From scratch: columns by multiplication
        let mut cols = vec![];
        let mut reduced = vec![];
        let cb: Vec<N> = st.cols.iter().map(|&j| d.cost(j)).collect();
        for j in 0..d.n {
            let g = dense(&t.generate_column(j).into_column(), st.cols.len());
            if prop == "S07" {
                e.prove("generated column", solves(&st, &g, &|i| dn_entry(d, i, j)));
            }
            reduced.push(d.cost(j) - dot(&cb, &g));
            cols.push(g);
        }
        let nonbasic: Vec<usize> = (0..d.n).filter(|j| !st.cols.contains(j)).collect();
        let Some((q, cost)) = choice else {
            e.outcome(&format!("none at {step}"));
            if prop == "S07" {
                e.prove("an improving column is missed", Fm::And(nonbasic.iter().map(|&j| ge0(&reduced[j])).collect()));
            }
            return;
        };
        e.outcome(&format!("col {q}"));
        if prop == "S07" {
            e.prove("a basic column is selected", Fm::bool(!st.cols.contains(&q)));
            e.prove("selected column does not improve", Fm::Sg(reduced[q].clone(), NEG));
            e.prove("reported reduced cost", eq(&cost, &reduced[q]));
            match rule_name {
                "variable" => e.prove(
                    "selected reduced cost is not the smallest",
                    Fm::And(nonbasic.iter().map(|&j| le(&reduced[q], &reduced[j])).collect()),
                ),
                "objective" => {
                    let gamma = |j: usize| {
                        let mut s = k(1);
                        for x in &cols[j] {
                            s += x.clone() * x;
                        }
                        s
                    };
                    // c_q^2 / gamma_q >= c_j^2 / gamma_j
                    let v = nonbasic
                        .iter()
                        .filter(|&&j| j != q)
                        .map(|&j| {
                            Fm::Or(vec![
                                ge0(&reduced[j]),
                                le(
                                    &(reduced[j].clone() * &reduced[j] * gamma(q)),
                                    &(reduced[q].clone() * &reduced[q] * gamma(j)),
                                ),
                            ])
                        })
                        .collect();
                    e.prove("not the steepest edge", Fm::And(v));
                }
                _ => {}
            }
        }
        let info = t.generate_column(q);
        let xb: Vec<N> = st.cols.iter().map(|&j| t.variable_value(j)).collect();
        let Some(row) = t.select_primal_pivot_row(info.column()) else {
            e.outcome("no row");
            if prop == "S08" {
                e.prove("a row with a positive element is missed", Fm::And(cols[q].iter().map(|x| Fm::Sg(x.clone(), NEG | ZER)).collect()));
            }
            return;
        };
        e.outcome(&format!("row {row}"));
        if prop == "S08" {
            e.prove("pivot element is not positive", Fm::Sg(cols[q][row].clone(), POS));
            // Ratios: x_row / a_row <= x_i / a_i whenever a_i > 0
            let v = (0..st.cols.len())
                .map(|i| {
                    Fm::Or(vec![
                        Fm::Sg(cols[q][i].clone(), NEG | ZER),
                        le(&(xb[row].clone() * &cols[q][i]), &(xb[i].clone() * &cols[q][row])),
                    ])
                })
                .collect();
            e.prove("not the minimum ratio", Fm::And(v));
        }
        let change = t.bring_into_basis(q, row, info, cost);
        rule.after_basis_update(change, &t);
        st.cols[row] = q;
        if prop == "S08" {
            let v: Vec<N> = st.cols.iter().map(|&j| t.variable_value(j)).collect();
            e.prove("negative basic value", Fm::And(v.iter().map(ge0).collect()));
        }
        if track {
            check_state(e, &format!("after {} steps: ", step + 1), &t, &st);
        }
    }
    e.outcome("more");
}

pub fn rules(e: &E, prop: &str, cfg: &EqCfg, bs: &Bases, rule: &str, lu: bool, steps: usize) {
    let d = Dn::new(e, cfg);
    let o = Oracle { bs, b: d.b.clone(), c: d.costs() };
    let track = prop == "S09";
    match (rule, lu) {
        ("first", true) => run_rule::<Lu, FirstProfitable>(e, prop, cfg, &o, &d, rule, steps, track),
        ("first", false) => run_rule::<Rows, FirstProfitable>(e, prop, cfg, &o, &d, rule, steps, track),
        ("memory", true) => run_rule::<Lu, FirstProfitableWithMemory>(e, prop, cfg, &o, &d, rule, steps, track),
        ("memory", false) => run_rule::<Rows, FirstProfitableWithMemory>(e, prop, cfg, &o, &d, rule, steps, track),
        ("variable", true) => run_rule::<Lu, SteepestDescentAlongVariable>(e, prop, cfg, &o, &d, rule, steps, track),
        ("variable", false) => run_rule::<Rows, SteepestDescentAlongVariable>(e, prop, cfg, &o, &d, rule, steps, track),
        ("objective", true) => run_rule::<Lu, SteepestDescentAlongObjective<N>>(e, prop, cfg, &o, &d, rule, steps, track),
        (_, _) => run_rule::<Rows, SteepestDescentAlongObjective<N>>(e, prop, cfg, &o, &d, rule, steps, track),
    }
}

/// S10: the state that a supplied basis implies.
fn cold<IM: InverseMaintainer<F = N>>(e: &E, cfg: &EqCfg, order: &[usize]) {
    let d = Dn::new(e, cfg);
    let p = Full(&d);
    // By columns, in any order
    let im = IM::from_basis(order, &p);
    let st = State { d: &d, cols: order.to_vec(), rows: (0..d.m).collect() };
    cold_state(e, "from columns: ", &im, &st);
    let t = Tableau::<IM, NonArtificial<_>>::new_with_inverse_maintainer(&p, im, order.iter().copied().collect());
    check_state(e, "from columns: ", &t, &st);
    // By pivots, in any order of the pairs
    let pivots: Vec<(usize, usize)> = order.iter().enumerate().map(|(i, &j)| ((i * 2 + 1) % order.len().max(1), j)).collect();
    let distinct: HashSet<usize> = pivots.iter().map(|x| x.0).collect();
    let pivots = if distinct.len() == order.len() { pivots } else { order.iter().copied().enumerate().rev().collect() };
    let im = IM::from_basis_pivots(&pivots, &p);
    let mut sorted = pivots.clone();
    sorted.sort();
    let st = State { d: &d, cols: sorted.iter().map(|x| x.1).collect(), rows: (0..d.m).collect() };
    cold_state(e, "from pivots: ", &im, &st);
    e.outcome("done");
}
fn cold_state<IM: InverseMaintainer<F = N>>(e: &E, tag: &str, im: &IM, st: &State) {
    let d = st.d;
    let xb: Vec<N> = (0..d.m).map(|i| im.get_constraint_value(i).clone()).collect();
    e.prove(
        &format!("{tag}order of the basic columns"),
        Fm::bool((0..d.m).all(|i| im.basis_column_index_for_row(i) == st.cols[i])),
    );
    e.prove(&format!("{tag}basic values"), solves(st, &xb, &|i| d.b[i].clone()));
    let cb: Vec<N> = st.cols.iter().map(|&j| d.cost(j)).collect();
    e.prove(&format!("{tag}cost"), eq(&im.get_objective_function_value(), &dot(&cb, &xb)));
    let mut v = vec![];
    for j in 0..d.n {
        let g = dense(&im.generate_column(Col(d.cols[j].clone())).into_column(), d.m);
        v.push(solves(st, &g, &|i| dn_entry(d, i, j)));
        v.push(eq(&(im.cost_difference(&Col(d.cols[j].clone())) + dot(&cb, &g)), &k(0)));
    }
    e.prove(&format!("{tag}columns and dual row"), Fm::And(v));
}
pub fn s10(e: &E, cfg: &EqCfg, order: &[usize], lu: bool) {
    if lu { cold::<Lu>(e, cfg, order) } else { cold::<Rows>(e, cfg, order) }
}
