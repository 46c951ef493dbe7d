// Programs read from a text.
use std::convert::TryInto;

use relp::io::error::Import;
use relp::io::mps::{MPS, parse_fixed, parse_free};

fn tokens(e: &E, t: &Text) {
    e.no_tokens();
    for v in t.values() {
        if !matches!(v, V::K(_)) {
            e.token(&v.text(), &input(e, &v));
        }
    }
}

/// The larger (smaller) one.
fn tightest(e: &E, old: Option<N>, new: N, larger: bool) -> Option<N> {
    Some(match old {
        None => new,
        Some(old) => {
            if e.split(&(new.clone() - &old), if larger { POS } else { NEG }) {
                new
            } else {
                old
            }
        }
    })
}

/// What the text says, from the definition of the format. Also whether the variables are integer and
/// whether one has no values.
fn meaning(e: &E, t: &Text) -> (Gp, Vec<bool>, bool) {
    let (m, n) = (t.rows.len(), t.columns.len());
    let mut a = vec![vec![k(0); n]; m];
    let mut c = vec![k(0); n];
    for (j, column) in t.columns.iter().enumerate() {
        for (i, v) in &column.entries {
            match i {
                Some(i) => a[*i][j] = input(e, v),
                None => c[j] = input(e, v),
            }
        }
    }
    let mut b: Vec<Option<N>> = vec![None; m];
    for (i, v) in t.rhs.iter().flatten() {
        // Otherwise, there is no meaning
        let ranged = t.ranges.iter().flatten().any(|r| r.0 == *i);
        if let (true, Some(old)) = (t.rows[*i].0 == 'E' || ranged, &b[*i]) {
            e.assume(eq(old, &input(e, v)));
        }
        b[*i] = match t.rows[*i].0 {
            'E' => Some(input(e, v)),
            kind => tightest(e, b[*i].take(), input(e, v), kind == 'G'),
        };
    }
    let b: Vec<N> = b.into_iter().map(|v| v.unwrap_or(k(0))).collect();
    let mut kinds: Vec<Rk> = t.rows.iter().map(|r| match r.0 { 'E' => Rk::Eq, 'L' => Rk::Le, _ => Rk::Ge }).collect();
    let mut upper = b.clone();
    let mut r = vec![k(0); m];
    for (i, v) in t.ranges.iter().flatten() {
        let value = input(e, v);
        let (positive, zero) = (e.split(&value, POS), e.split(&value, ZER));
        let size = if positive { value } else { -value };
        match t.rows[*i].0 {
            'G' => upper[*i] = b[*i].clone() + &size,
            'L' => {}
            _ => {
                if positive || zero {
                    upper[*i] = b[*i].clone() + &size;
                }
            }
        }
        r[*i] = size;
        kinds[*i] = Rk::Range;
    }
    let mut lo: Vec<Option<N>> = vec![None; n];
    let mut up: Vec<Option<N>> = vec![None; n];
    let mut default = vec![true; n];
    let mut integer: Vec<bool> = t.columns.iter().map(|c| c.integer).collect();
    for (_, kind, j, v) in &t.bounds {
        let j = *j;
        let value = v.as_ref().map(|v| input(e, v));
        if matches!(*kind, "LO" | "FX" | "LI") {
            lo[j] = tightest(e, lo[j].take(), value.clone().unwrap(), true);
        }
        if matches!(*kind, "UP" | "FX" | "UI") {
            up[j] = tightest(e, up[j].take(), value.unwrap(), false);
        }
        if matches!(*kind, "BV" | "PL") {
            lo[j] = tightest(e, lo[j].take(), k(0), true);
        }
        if matches!(*kind, "BV") {
            up[j] = tightest(e, up[j].take(), k(1), false);
        }
        if matches!(*kind, "MI") {
            up[j] = tightest(e, up[j].take(), k(0), false);
        }
        if matches!(*kind, "BV" | "LI" | "UI") {
            integer[j] = true;
        }
        if !matches!(*kind, "UP" | "UI") {
            default[j] = false;
        }
    }
    let mut empty = false;
    for j in 0..n {
        if default[j] {
            lo[j] = Some(k(0));
        }
        if let (Some(l), Some(u)) = (&lo[j], &up[j]) {
            empty |= e.split(&(u.clone() - l), NEG);
        }
    }
    let width = lo.iter().zip(&up).map(|(l, u)| match (l, u) {
        (Some(l), Some(u)) => Some(u.clone() - l),
        (None, Some(u)) => Some(u.clone()),
        _ => None,
    }).collect();
    let some = |v: &Option<N>| v.as_ref().map(|_| V::K(0));
    let cfg = GCfg {
        maximize: t.sense.starts_with("MAX"),
        rows: kinds.iter().map(|&x| (x, vec![V::K(0); n], V::K(0), V::K(0))).collect(),
        vars: (0..n).map(|j| GVar { lower: some(&lo[j]), upper: some(&up[j]), cost: V::K(0), integer: integer[j] }).collect(),
        fixed: V::K(0),
    };
    let named = Some(t.columns.iter().map(|c| c.name.clone()).collect());
    (Gp { cfg, a, b: upper, r, lo, up, width, c, fixed: k(0), named }, integer, empty)
}

fn read(text: &str, fixed: bool) -> Result<MPS<Raw>, Import> {
    if fixed { parse_fixed::<Raw>(text) } else { parse_free::<Raw>(&text) }
}

/// The program has the meaning that the format gives to the text.
pub fn text_means(e: &E, t: &Text, fixed: bool, how: u8, zero: &[bool]) {
    tokens(e, t);
    let text = t.write();
    if std::env::var("VERIF_SHOW").is_ok() {
        eprintln!("{text}");
    }
    let (p, integer, empty) = meaning(e, t);
    let mps = match read(&text, fixed) {
        Ok(mps) => mps,
        Err(_) => return e.prove("a valid text is rejected", Fm::F),
    };
    let general: Result<GeneralForm<N>, _> = mps.try_into();
    if empty {
        e.outcome("no values");
        return e.prove("a text with a variable without values is rejected", Fm::bool(general.is_err()));
    }
    let Ok(general) = general else { return e.prove("the program of a valid text is rejected", Fm::F) };
    let debug = format!("{general:?}");
    let types: Vec<bool> = debug.split("variable_type: ").skip(1).map(|s| s.starts_with("Integer")).collect();
    e.prove("integrality", Fm::bool(types == integer));
    match how {
        0 => forward(e, &p, general),
        1 => backward(e, &p, general, zero, 1),
        _ => presolved_text(e, &p, general, zero),
    }
}

fn presolved_text(e: &E, p: &Gp, mut g: GeneralForm<N>, zero: &[bool]) {
    match g.presolve() {
        Err(LinearProgramType::Infeasible) => {
            e.outcome("infeasible");
            let x: Vec<N> = (0..p.n()).map(|j| e.var(&format!("x{j}"))).collect();
            e.prove("presolve reports infeasible but the point is feasible", p.feasible(&x).not());
        }
        Err(LinearProgramType::Unbounded) => e.outcome("unbounded"),
        Err(LinearProgramType::FiniteOptimum(s)) => {
            e.outcome("solved");
            let Some(v) = values(e, "", p, &s) else { return };
            for part in p.feasible_parts(&v) {
                e.prove("the solution found by presolve satisfies the rows and bounds", part);
            }
            e.prove("the objective value found by presolve is that of the solution", eq(&s.objective_value, &p.objective(&v)));
        }
        Ok(()) => {
            e.outcome("reduced");
            let counts = g.standardize();
            let d = g.derive_matrix_data(counts);
            let cols = canonical_columns(&d);
            let rhs: Vec<N> = d.right_hand_side().into_iter().collect();
            drop(d);
            extended(e, p, g, zero, &cols, &rhs);
        }
    }
}

/// Both readers give the same.
pub fn readers_agree(e: &E, t: &Text) {
    tokens(e, t);
    let text = t.write();
    if std::env::var("VERIF_SHOW").is_ok() {
        eprintln!("{text}");
    }
    let (fixed, free) = (read(&text, true), read(&text, false));
    e.outcome("read");
    match (fixed, free) {
        (Ok(fixed), Ok(free)) => e.prove("both readers give the same program", Fm::bool(fixed == free)),
        (Err(_), _) => e.prove("the fixed reader rejects the text", Fm::F),
        (_, Err(_)) => e.prove("the free reader rejects the text", Fm::F),
    }
}

/// Whatever the text, there is a program or an error that can be shown.
pub fn reads_or_rejects(e: &E, t: &Text, text: &str, fixed: bool) {
    tokens(e, t);
    if std::env::var("VERIF_SHOW").is_ok() {
        eprintln!("{text}");
    }
    match read(text, fixed) {
        Ok(mps) => {
            let general: Result<GeneralForm<N>, _> = mps.try_into();
            match general {
                Ok(_) => e.outcome("program"),
                Err(error) => {
                    e.outcome("inconsistent");
                    show(&error);
                }
            }
        }
        Err(error) => {
            e.outcome("rejected");
            show(&error);
        }
    }
}
/// There is no program.
pub fn rejected(e: &E, t: &Text, text: &str, fixed: bool) {
    tokens(e, t);
    if std::env::var("VERIF_SHOW").is_ok() {
        eprintln!("{text}");
    }
    match read(text, fixed) {
        Ok(mps) => {
            let general: Result<GeneralForm<N>, _> = mps.try_into();
            e.outcome(if general.is_ok() { "program" } else { "inconsistent" });
            e.prove("a text that contradicts itself is rejected", Fm::bool(general.is_err()));
        }
        Err(_) => e.outcome("rejected"),
    }
}
fn show(error: &dyn std::error::Error) {
    let _ = format!("{error} {error:?}");
    let mut next = error.source();
    let mut steps = 0;
    while let Some(e) = next {
        let _ = format!("{e}");
        steps += 1;
        assert!(steps < 100, "an error that is caused by itself");
        next = e.source();
    }
}
