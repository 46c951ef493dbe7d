//! Concrete linear programming data shared by the scenarios, and the basis enumeration used as oracle.
use crate::q::Q;

/// A value of a scenario: a fixed number or a symbolic input.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    K(i64),
    /// symbolic, no sign constraint
    Free(&'static str, usize),
    /// symbolic, >= 0
    NonNeg(&'static str, usize),
    /// symbolic, > 0
    Pos(&'static str, usize),
    /// symbolic, != 0
    NonZero(&'static str, usize),
    /// symbolic, < 0
    Neg(&'static str, usize),
    /// `sum k_i x_i >= 0` of inputs `x_i >= 0`
    Lin(Vec<i64>, &'static str),
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Rk {
    Eq,
    Range,
    Le,
    Ge,
}

/// A program in canonical form: rows sorted by kind.
#[derive(Clone, Debug)]
pub struct Canon {
    pub n: usize,
    pub rows: Vec<(Rk, Vec<i64>)>,
    pub b: Vec<V>,
    pub r: Vec<V>,
    pub u: Vec<Option<V>>,
    pub c: Vec<V>,
}

impl Canon {
    pub fn count(&self, k: Rk) -> usize {
        self.rows.iter().filter(|r| r.0 == k).count()
    }
    /// The documented equality form: (matrix rows x columns).
    pub fn std_matrix(&self) -> Vec<Vec<Q>> {
        let m = self.rows.len();
        let nr = self.count(Rk::Range);
        let nu = self.count(Rk::Le);
        let nl = self.count(Rk::Ge);
        let nb = self.u.iter().filter(|x| x.is_some()).count();
        let rows = m + nb + nr;
        let cols = self.n + nr + nu + nl + nb + nr;
        let mut a = vec![vec![Q::ZERO; cols]; rows];
        let mut next = [self.n, self.n + nr, self.n + nr + nu];
        let mut range_cols = vec![];
        for (i, (k, row)) in self.rows.iter().enumerate() {
            for (j, &v) in row.iter().enumerate() {
                a[i][j] = Q::int(v);
            }
            match k {
                Rk::Eq => {}
                Rk::Range => {
                    a[i][next[0]] = Q::ONE;
                    range_cols.push(next[0]);
                    next[0] += 1;
                }
                Rk::Le => {
                    a[i][next[1]] = Q::ONE;
                    next[1] += 1;
                }
                Rk::Ge => {
                    a[i][next[2]] = Q::int(-1);
                    next[2] += 1;
                }
            }
        }
        let mut row = m;
        let mut col = self.n + nr + nu + nl;
        for j in 0..self.n {
            if self.u[j].is_some() {
                a[row][j] = Q::ONE;
                a[row][col] = Q::ONE;
                row += 1;
                col += 1;
            }
        }
        for rc in range_cols {
            a[row][rc] = Q::ONE;
            a[row][col] = Q::ONE;
            row += 1;
            col += 1;
        }
        a
    }
}

/// All bases of a matrix, after selecting a maximal set of independent rows.
#[derive(Clone, Debug)]
pub struct Bases {
    pub rows: Vec<usize>,
    pub m: usize,
    pub n: usize,
    pub a: Vec<Vec<Q>>,
    /// Vectors v with v A = 0: the right-hand side has to satisfy v b = 0.
    pub null: Vec<Vec<Q>>,
    /// (basic columns, inverse with rows in the order of the basic columns, columns in order of `rows`)
    pub bases: Vec<(Vec<usize>, Vec<Vec<Q>>)>,
    /// Extreme directions of `{ d >= 0 : A d = 0 }`.
    pub rays: Vec<Vec<Q>>,
    pub complete: bool,
}

pub fn invert(a: &[Vec<Q>]) -> Option<Vec<Vec<Q>>> {
    let n = a.len();
    let mut w: Vec<Vec<Q>> = a
        .iter()
        .enumerate()
        .map(|(i, r)| {
            let mut r = r.clone();
            r.extend((0..n).map(|j| if i == j { Q::ONE } else { Q::ZERO }));
            r
        })
        .collect();
    for k in 0..n {
        let p = (k..n).find(|&i| !w[i][k].is_zero())?;
        w.swap(k, p);
        let inv = w[k][k].inv();
        for x in w[k].iter_mut() {
            *x = x.mul(inv);
        }
        for i in 0..n {
            if i != k && !w[i][k].is_zero() {
                let f = w[i][k];
                for j in 0..2 * n {
                    let t = w[k][j].mul(f);
                    w[i][j] = w[i][j].sub(t);
                }
            }
        }
    }
    Some(w.into_iter().map(|r| r[n..].to_vec()).collect())
}

/// Independent rows and the left null space.
fn rows_and_null(a: &[Vec<Q>]) -> (Vec<usize>, Vec<Vec<Q>>) {
    let m = a.len();
    let mut basis: Vec<(Vec<Q>, Vec<Q>)> = vec![]; // reduced row, combination
    let mut rows = vec![];
    let mut null = vec![];
    for i in 0..m {
        let mut r = a[i].clone();
        let mut comb: Vec<Q> = (0..m).map(|k| if k == i { Q::ONE } else { Q::ZERO }).collect();
        for (br, bc) in &basis {
            let lead = br.iter().position(|x| !x.is_zero()).unwrap();
            if !r[lead].is_zero() {
                let f = r[lead].div(br[lead]);
                for j in 0..r.len() {
                    r[j] = r[j].sub(br[j].mul(f));
                }
                for j in 0..m {
                    comb[j] = comb[j].sub(bc[j].mul(f));
                }
            }
        }
        if r.iter().all(|x| x.is_zero()) {
            null.push(comb);
        } else {
            rows.push(i);
            basis.push((r, comb));
        }
    }
    (rows, null)
}

impl Bases {
    pub fn new(a: Vec<Vec<Q>>, limit: usize) -> Bases {
        let m_all = a.len();
        let n = a.first().map_or(0, |r| r.len());
        let (rows, null) = rows_and_null(&a);
        let m = rows.len();
        let mut bases = vec![];
        let mut complete = true;
        let mut pick: Vec<usize> = (0..m).collect();
        if m <= n {
            loop {
                let sub: Vec<Vec<Q>> =
                    rows.iter().map(|&i| pick.iter().map(|&j| a[i][j]).collect()).collect();
                if let Some(inv) = invert(&sub) {
                    bases.push((pick.clone(), inv));
                    if bases.len() > limit {
                        complete = false;
                        break;
                    }
                }
                // next combination
                let mut i = m;
                let done = loop {
                    if i == 0 {
                        break true;
                    }
                    i -= 1;
                    if pick[i] < n - (m - i) {
                        pick[i] += 1;
                        for k in i + 1..m {
                            pick[k] = pick[k - 1] + 1;
                        }
                        break false;
                    }
                };
                if done {
                    break;
                }
            }
        }
        let mut rays: Vec<Vec<Q>> = vec![];
        for (cols, inv) in &bases {
            for j in 0..n {
                if cols.contains(&j) {
                    continue;
                }
                let mut d = vec![Q::ZERO; n];
                d[j] = Q::ONE;
                for (k, &bc) in cols.iter().enumerate() {
                    let mut s = Q::ZERO;
                    for (t, &i) in rows.iter().enumerate() {
                        s = s.add(inv[k][t].mul(a[i][j]));
                    }
                    d[bc] = s.neg();
                }
                if d.iter().all(|x| x.sign() >= 0) {
                    // scale to coprime integers for deduplication
                    let first = *d.iter().find(|x| !x.is_zero()).unwrap();
                    let d: Vec<Q> = d.iter().map(|x| x.div(first)).collect();
                    if !rays.contains(&d) {
                        rays.push(d);
                    }
                }
            }
        }
        assert!(complete, "too many bases in a scenario");
        Bases { rows, m: m_all, n, a, null, bases, rays, complete }
    }
}

/// Small deterministic generator for scenario coefficients.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, salt: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ salt.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x1234_5678_9abc_def1);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        if self.0 == 0 {
            self.0 = 88172645463325252;
        }
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 11
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

/// A program `min c x, A x = b, x >= 0`, possibly with initial basis columns `(row, column)`.
#[derive(Clone, Debug)]
pub struct EqCfg {
    pub a: Vec<Vec<V>>,
    pub b: Vec<V>,
    pub c: Vec<V>,
    pub pivots: Vec<(usize, usize)>,
}
impl EqCfg {
    /// The matrix, if it is concrete.
    pub fn matrix(&self) -> Vec<Vec<Q>> {
        self.a
            .iter()
            .map(|r| {
                r.iter()
                    .map(|v| match v {
                        V::K(i) => Q::int(*i),
                        _ => panic!("symbolic matrix"),
                    })
                    .collect()
            })
            .collect()
    }
}

pub fn pick<'a, T>(rng: &mut Rng, v: &'a [T]) -> &'a T {
    &v[rng.below(v.len() as u64) as usize]
}
pub fn rank(a: &[Vec<Q>]) -> usize {
    rows_and_null(a).0.len()
}
pub fn to_q(a: &[Vec<i64>]) -> Vec<Vec<Q>> {
    a.iter().map(|r| r.iter().map(|&x| Q::int(x)).collect()).collect()
}
/// A random matrix of full row rank.
pub fn random_matrix(rng: &mut Rng, m: usize, n: usize) -> Vec<Vec<i64>> {
    loop {
        let a: Vec<Vec<i64>> = (0..m)
            .map(|_| (0..n).map(|_| if rng.chance(2, 3) { *pick(rng, &[1, 1, 2, -1, 3, -2]) } else { 0 }).collect())
            .collect();
        if rank(&to_q(&a)) == m {
            return a;
        }
    }
}
pub fn free_c(n: usize) -> Vec<V> {
    (0..n).map(|j| V::Free("c", j)).collect()
}
pub fn nonneg_b(m: usize) -> Vec<V> {
    (0..m).map(|i| V::NonNeg("b", i)).collect()
}
pub fn rows_v(a: &[Vec<i64>]) -> Vec<Vec<V>> {
    a.iter().map(|r| r.iter().map(|&x| V::K(x)).collect()).collect()
}

pub fn random_eq(rng: &mut Rng, m: usize, n: usize, units: usize) -> EqCfg {
    let mut a = loop {
        let a: Vec<Vec<i64>> = (0..m)
            .map(|_| (0..n).map(|_| if rng.chance(2, 3) { *pick(rng, &[1, 1, 2, -1, 3, -2]) } else { 0 }).collect())
            .collect();
        let mut full = a.clone();
        for i in 0..units.min(m) {
            for (r, row) in full.iter_mut().enumerate() {
                row.push((r == i) as i64);
            }
        }
        if rank(&to_q(&full)) == m {
            break full;
        }
    };
    // Shuffle rows and columns, so that the unit columns are anywhere
    let mut rp: Vec<usize> = (0..m).collect();
    let total = a[0].len();
    let mut cp: Vec<usize> = (0..total).collect();
    for i in (1..m).rev() {
        rp.swap(i, rng.below(i as u64 + 1) as usize);
    }
    for i in (1..total).rev() {
        cp.swap(i, rng.below(i as u64 + 1) as usize);
    }
    a = rp.iter().map(|&i| cp.iter().map(|&j| a[i][j]).collect()).collect();
    let mut pivots = vec![];
    for i in 0..m {
        // a unit column of this row
        if let Some(j) = (0..total).find(|&j| (0..m).all(|r| a[r][j] == (r == i) as i64)) {
            pivots.push((i, j));
        }
    }
    EqCfg {
        b: (0..m).map(|_| V::K(rng.range(0, 5))).collect(),
        c: (0..total).map(|_| V::K(rng.range(-3, 3))).collect(),
        a: rows_v(&a),
        pivots,
    }
}
pub fn sym_eq(mut p: EqCfg, what: &str) -> EqCfg {
    if what.contains('b') {
        p.b = nonneg_b(p.a.len());
    }
    if what.contains('z') {
        p.b = p.b.iter().map(|_| V::K(0)).collect();
    }
    if what.contains('c') {
        p.c = free_c(p.c.len());
    }
    p
}

/// Insert rows that are combinations of others.
pub fn add_dependent(rng: &mut Rng, p: &EqCfg, extra: usize) -> (EqCfg, Vec<Vec<i64>>) {
    let base: Vec<Vec<i64>> = p.a.iter().map(|r| r.iter().map(|v| if let V::K(i) = v { *i } else { 0 }).collect()).collect();
    let base_b: Vec<i64> = p.b.iter().map(|v| if let V::K(i) = v { *i } else { 0 }).collect();
    let mut rows = base.clone();
    let mut b = base_b.clone();
    for _ in 0..extra {
        let mut combo = vec![0; base[0].len()];
        let mut value = 0;
        match rng.below(5) {
            0 => {} // zero row
            1 => {
                let i = rng.below(base.len() as u64) as usize;
                combo = base[i].clone();
                value = base_b[i];
            }
            _ => {
                for (r, v) in base.iter().zip(&base_b) {
                    let f = rng.range(-2, 2);
                    for (c, x) in combo.iter_mut().zip(r) {
                        *c += f * x;
                    }
                    value += f * v;
                }
            }
        }
        if value < 0 {
            value = -value;
            combo.iter_mut().for_each(|x| *x = -*x);
        }
        let at = rng.below(rows.len() as u64 + 1) as usize;
        rows.insert(at, combo);
        b.insert(at, value);
    }
    let m = rows.len();
    let n = rows[0].len();
    let mut pivots = vec![];
    for i in 0..m {
        if let Some(j) = (0..n).find(|&j| (0..m).all(|r| rows[r][j] == (r == i) as i64)) {
            pivots.push((i, j));
        }
    }
    let mut q = p.clone();
    q.a = rows_v(&rows);
    q.b = b.into_iter().map(V::K).collect();
    q.pivots = pivots;
    (q, rows)
}


pub fn engine(lu: bool) -> &'static str {
    if lu { "lu" } else { "rows" }
}
/// Start bases in general position: a set of basic columns, with some order over the rows.
pub fn start(rng: &mut Rng, bs: &Bases) -> Vec<(usize, usize)> {
    let cols = &bs.bases[rng.below(bs.bases.len() as u64) as usize].0;
    let m = cols.len();
    let mut rows: Vec<usize> = (0..m).collect();
    for i in (1..m).rev() {
        rows.swap(i, rng.below(i as u64 + 1) as usize);
    }
    rows.into_iter().zip(cols.iter().copied()).collect()
}

/// A number of valid exchanges (row, column) from the basis.
pub fn steps(rng: &mut Rng, bs: &Bases, pivots: &[(usize, usize)], count: usize) -> Vec<(usize, usize)> {
    let mut sorted = pivots.to_vec();
    sorted.sort();
    let mut cols: Vec<usize> = sorted.iter().map(|x| x.1).collect();
    let mut out = vec![];
    for _ in 0..count {
        for _try in 0..50 {
            let row = rng.below(cols.len() as u64) as usize;
            let col = rng.below(bs.n as u64) as usize;
            if cols.contains(&col) {
                continue;
            }
            let mut next = cols.clone();
            next[row] = col;
            let mut key = next.clone();
            key.sort();
            if bs.bases.iter().any(|b| b.0 == key) {
                cols = next;
                out.push((row, col));
                break;
            }
        }
    }
    out
}


/// Operations on vectors.
#[derive(Clone, Debug)]
pub enum VOp {
    FromIter,
    Unit(usize),
    AddMultiple(String),
    AddMultipleBy(i64, String),
    Set(usize),
    Shift(usize),
    Scale,
    Divide,
    Push,
    Extend(usize),
    Remove(Vec<usize>),
}
/// Operations on matrices.
#[derive(Clone, Debug)]
pub enum MOp {
    RemoveRows(Vec<usize>),
    RemoveColumns(Vec<usize>),
    Set(usize, usize),
    Signs(Vec<usize>),
    Below(Vec<String>),
    Right(Vec<String>),
}

/// A canonical program with arbitrary data: rows sorted by kind.
#[derive(Clone, Debug)]
pub struct MCfg {
    pub rows: Vec<(Rk, Vec<V>)>,
    pub b: Vec<V>,
    pub r: Vec<V>,
    pub u: Vec<Option<V>>,
    pub c: Vec<V>,
}

/// A variable of a general program.
#[derive(Clone, Debug)]
pub struct GVar {
    pub lower: Option<V>,
    /// If there is a lower bound, the distance from it
    pub upper: Option<V>,
    pub cost: V,
    pub integer: bool,
}
/// A program in general form; rows in any order, with right-hand side and range.
#[derive(Clone, Debug)]
pub struct GCfg {
    pub maximize: bool,
    pub rows: Vec<(Rk, Vec<V>, V, V)>,
    pub vars: Vec<GVar>,
    pub fixed: V,
}
impl GCfg {
    /// Columns of the equality form in nonnegative variables: (variable, sign).
    pub fn parts(&self) -> Vec<(usize, i64)> {
        let mut v = vec![];
        for (j, x) in self.vars.iter().enumerate() {
            match (&x.lower, &x.upper) {
                (Some(_), _) => v.push((j, 1)),
                (None, Some(_)) => v.push((j, -1)),
                (None, None) => v.extend([(j, 1), (j, -1)]),
            }
        }
        v
    }
    /// Rows: the constraints, then the distances between bounds, then the ranges.
    pub fn std_matrix(&self) -> Vec<Vec<Q>> {
        let parts = self.parts();
        let boxed: Vec<usize> = parts.iter().enumerate().filter(|(_, p)| self.vars[p.0].lower.is_some() && self.vars[p.0].upper.is_some()).map(|x| x.0).collect();
        let ranges: Vec<usize> = (0..self.rows.len()).filter(|&i| self.rows[i].0 == Rk::Range).collect();
        let m = self.rows.len();
        let total = m + boxed.len() + ranges.len();
        let mut columns: Vec<Vec<Q>> = vec![];
        for (t, &(j, s)) in parts.iter().enumerate() {
            let mut col = vec![Q::ZERO; total];
            for (i, row) in self.rows.iter().enumerate() {
                match &row.1[j] {
                    V::K(a) => col[i] = Q::int(a * s),
                    _ => panic!("symbolic matrix"),
                }
            }
            if let Some(b) = boxed.iter().position(|&x| x == t) {
                col[m + b] = Q::ONE;
            }
            columns.push(col);
        }
        let unit = |i: usize, s: i64| {
            let mut c = vec![Q::ZERO; total];
            c[i] = Q::int(s);
            c
        };
        for (i, row) in self.rows.iter().enumerate() {
            match row.0 {
                Rk::Eq => {}
                Rk::Le => columns.push(unit(i, 1)),
                Rk::Ge => columns.push(unit(i, -1)),
                Rk::Range => {
                    let mut c = unit(i, 1);
                    c[m + boxed.len() + ranges.iter().position(|&x| x == i).unwrap()] = Q::ONE;
                    columns.push(c);
                }
            }
        }
        for i in m..total {
            columns.push(unit(i, 1));
        }
        (0..total).map(|i| columns.iter().map(|c| c[i]).collect()).collect()
    }
}

pub fn program(rng: &mut Rng, n: usize, m: usize, maximize: bool) -> GCfg {
    GCfg {
        maximize,
        rows: (0..m)
            .map(|_| {
                let kind = *pick(rng, &[Rk::Eq, Rk::Range, Rk::Le, Rk::Ge]);
                let row = (0..n).map(|_| V::K(if rng.chance(3, 4) { *pick(rng, &[1, 1, 2, -1, 3, -2]) } else { 0 })).collect();
                (kind, row, V::K(rng.range(-4, 6)), V::K(rng.range(1, 4)))
            })
            .collect(),
        vars: (0..n)
            .map(|_| {
                let kind = rng.below(6);
                GVar {
                    lower: match kind {
                        0 | 1 => Some(V::K(0)),
                        2 | 3 => Some(V::K(rng.range(-3, 3))),
                        _ => None,
                    },
                    upper: match kind {
                        1 | 3 => Some(V::K(rng.range(1, 5))),
                        4 => Some(V::K(rng.range(-2, 4))),
                        _ => None,
                    },
                    cost: V::K(rng.range(-3, 3)),
                    integer: rng.chance(1, 4),
                }
            })
            .collect(),
        fixed: V::K(rng.range(-3, 3)),
    }
}

/// Parts of the data as inputs: b right-hand sides, ranges; l bounds; c costs; a some coefficients.
pub fn symbolic(rng: &mut Rng, mut p: GCfg, what: &str) -> GCfg {
    if what.contains('b') {
        for (i, r) in p.rows.iter_mut().enumerate() {
            r.2 = V::Free("b", i);
            r.3 = if rng.chance(1, 3) { V::NonNeg("r", i) } else { V::Pos("r", i) };
        }
    }
    if what.contains('l') {
        for (j, v) in p.vars.iter_mut().enumerate() {
            if v.lower.is_some() {
                v.lower = Some(V::Free("l", j));
                v.upper = v.upper.as_ref().map(|_| V::NonNeg("w", j));
            } else {
                v.upper = v.upper.as_ref().map(|_| V::Free("u", j));
            }
        }
    }
    if what.contains('c') {
        for (j, v) in p.vars.iter_mut().enumerate() {
            v.cost = V::Free("c", j);
        }
        p.fixed = V::Free("f", 0);
    }
    if what.contains('a') {
        for i in 0..p.rows.len() {
            for j in 0..p.vars.len() {
                if p.rows[i].1[j] != V::K(0) && rng.chance(1, 3) {
                    p.rows[i].1[j] = if rng.chance(1, 4) { V::Free("a", 10 * i + j) } else { V::NonZero("a", 10 * i + j) };
                }
            }
        }
    }
    p
}

pub fn label(p: &GCfg) -> String {
    let rows: String = p.rows.iter().map(|r| match r.0 { Rk::Eq => '=', Rk::Range => 'r', Rk::Le => '<', Rk::Ge => '>' }).collect();
    let vars: String = p
        .vars
        .iter()
        .map(|v| match (&v.lower, &v.upper) {
            (Some(V::K(0)), None) => '+',
            (Some(_), None) => 'l',
            (Some(_), Some(_)) => 'b',
            (None, Some(_)) => 'u',
            _ => 'f',
        })
        .collect();
    format!("{}{rows}-{vars}", if p.maximize { "max" } else { "min" })
}

/// Sparse programs with many columns without costs, singleton rows and fixed variables.
pub fn sparse_program(rng: &mut Rng, n: usize, m: usize, maximize: bool) -> GCfg {
    let density = rng.range(1, 3) as u64;
    let cost = rng.range(0, 3) as u64;
    GCfg {
        maximize,
        rows: (0..m)
            .map(|_| {
                let kind = *pick(rng, &[Rk::Eq, Rk::Range, Rk::Le, Rk::Ge]);
                let row = (0..n).map(|_| V::K(if rng.chance(density, 4) { *pick(rng, &[1, 1, 2, -1, -1, -2]) } else { 0 })).collect();
                (kind, row, V::K(rng.range(-4, 6)), V::K(rng.range(1, 4)))
            })
            .collect(),
        vars: (0..n)
            .map(|_| {
                let kind = rng.below(7);
                GVar {
                    lower: match kind {
                        0 | 1 => Some(V::K(0)),
                        2 | 3 => Some(V::K(rng.range(-3, 3))),
                        6 => Some(V::K(rng.range(-3, 3))),
                        _ => None,
                    },
                    upper: match kind {
                        1 | 3 => Some(V::K(rng.range(1, 5))),
                        4 => Some(V::K(rng.range(-2, 4))),
                        6 => Some(V::K(0)),
                        _ => None,
                    },
                    cost: V::K(if rng.chance(cost, 3) { rng.range(-3, 3) } else { 0 }),
                    integer: rng.chance(1, 4),
                }
            })
            .collect(),
        fixed: V::K(rng.range(-3, 3)),
    }
}

/// Programs with a small part that is left by presolve, and a number of variables that are removed, in any order.
///
/// The objective has a best value whenever there are feasible points.
pub fn wide_program(rng: &mut Rng, most: i64) -> GCfg {
    let maximize = rng.chance(1, 4);
    let mut rows: Vec<(Rk, Vec<(usize, i64)>, V, V)> = vec![];
    let mut vars: Vec<GVar> = vec![];
    let kinds = [Rk::Le, Rk::Ge, Rk::Range, Rk::Range];
    let core = 2;
    let fixed_rhs = rng.chance(1, 2);
    for i in 0..core {
        let kind = if i == 0 && rng.chance(1, 4) { Rk::Eq } else { *pick(rng, &kinds) };
        let row = (0..2).map(|j| (j, *pick(rng, if i == j { &[2, 3] } else { &[1, 1, -1] }))).collect();
        let b = if i == 0 || !fixed_rhs { V::Free("b", i) } else { V::K(rng.range(2, 9)) };
        rows.push((kind, row, b, V::K(rng.range(1, 4))));
    }
    for _ in 0..core {
        vars.push(GVar { lower: Some(V::K(0)), upper: None, cost: V::K(rng.range(1, 4)), integer: rng.chance(1, 4) });
    }
    let add = |vars: &mut Vec<GVar>, lower, upper, cost: i64| {
        vars.push(GVar { lower, upper, cost: V::K(cost), integer: false });
        vars.len() - 1
    };
    let more = rng.range(1, most);
    let mut slack = vec![false; core];
    while (vars.len() as i64) < core as i64 + more {
        let cost = rng.range(-2, 3);
        match rng.below(8) {
            // Fixed
            0 | 1 => {
                let value = if rng.chance(1, 3) { V::Free("l", vars.len()) } else { V::K(rng.range(-3, 3)) };
                let j = add(&mut vars, Some(value), Some(V::K(0)), cost);
                for r in rows.iter_mut().take(core) {
                    if rng.chance(1, 2) {
                        r.1.push((j, *pick(rng, &[1, -1, 2])));
                    }
                }
            }
            // In no row at all
            2 => {
                match rng.below(4) {
                    0 => add(&mut vars, Some(V::K(rng.range(-3, 3))), None, cost.abs()),
                    1 => add(&mut vars, None, Some(V::K(rng.range(-3, 3))), -cost.abs()),
                    2 => add(&mut vars, Some(V::K(rng.range(-3, 3))), Some(V::K(rng.range(1, 3))), cost),
                    _ => add(&mut vars, None, None, 0),
                };
            }
            // Fixed by a row
            3 | 4 => {
                let j = add(&mut vars, if rng.chance(1, 2) { Some(V::K(rng.range(-9, -5))) } else { None }, None, cost);
                rows.push((Rk::Eq, vec![(j, *pick(rng, &[1, 2, -1]))], V::K(rng.range(-3, 3)), V::K(1)));
                if rng.chance(2, 3) {
                    rows[rng.below(core as u64) as usize].1.push((j, *pick(rng, &[1, -1])));
                }
            }
            // A slack
            5 => {
                let i = rng.below(core as u64) as usize;
                if slack[i] {
                    continue;
                }
                slack[i] = true;
                let j = match rng.below(3) {
                    0 => add(&mut vars, Some(V::K(rng.range(-1, 1))), None, 0),
                    1 => add(&mut vars, None, Some(V::K(rng.range(-1, 3))), 0),
                    _ => add(&mut vars, Some(V::K(rng.range(-1, 1))), Some(V::K(rng.range(1, 3))), 0),
                };
                rows[i].1.push((j, *pick(rng, &[1, 2, -1])));
            }
            // Pushed to their bounds
            6 => {
                let (l, m) = (rng.range(-2, 2), rng.range(-2, 2));
                let j = add(&mut vars, Some(V::K(l)), None, cost);
                let h = add(&mut vars, Some(V::K(m)), if rng.chance(1, 2) { Some(V::K(2)) } else { None }, rng.range(-2, 2));
                rows.push((Rk::Le, vec![(j, 1), (h, 2)], V::K(l + 2 * m), V::K(1)));
                if rng.chance(1, 2) {
                    rows[rng.below(core as u64) as usize].1.push((j, *pick(rng, &[1, -1])));
                }
            }
            // Bounded by a row; stays
            _ => {
                let j = add(&mut vars, Some(V::K(rng.range(-2, 2))), None, cost.abs());
                rows.push((Rk::Le, vec![(j, 2)], V::K(rng.range(3, 9)), V::K(1)));
                for r in rows.iter_mut().take(core) {
                    if rng.chance(2, 3) {
                        r.1.push((j, *pick(rng, &[1, -1, 2])));
                    }
                }
            }
        }
    }
    let shuffled = |rng: &mut Rng, n: usize| {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            v.swap(i, rng.below(i as u64 + 1) as usize);
        }
        v
    };
    let at = shuffled(rng, vars.len());
    let order = shuffled(rng, rows.len());
    let mut placed: Vec<Option<GVar>> = vec![None; vars.len()];
    for (j, mut v) in vars.into_iter().enumerate() {
        if let (true, V::K(c)) = (maximize, &v.cost) {
            v.cost = V::K(-c);
        }
        placed[at[j]] = Some(v);
    }
    let n = placed.len();
    GCfg {
        maximize,
        rows: order
            .into_iter()
            .map(|i| {
                let (kind, entries, b, r) = &rows[i];
                let mut row = vec![V::K(0); n];
                for &(j, v) in entries {
                    row[at[j]] = V::K(v);
                }
                (*kind, row, b.clone(), r.clone())
            })
            .collect(),
        vars: placed.into_iter().map(|v| v.unwrap()).collect(),
        fixed: V::K(rng.range(-3, 3)),
    }
}

/// A program with the factors that its inputs are taken to have.
#[derive(Clone, Debug)]
pub struct Scaled {
    pub rows: Vec<Vec<(u64, i32)>>,
    pub lower: Vec<Vec<(u64, i32)>>,
    pub upper: Vec<Vec<(u64, i32)>>,
    pub cost: Vec<Vec<(u64, i32)>>,
    pub entries: Vec<Vec<Vec<(u64, i32)>>>,
    /// The fixed entries are multiplied by these.
    pub row_units: Vec<(i64, i64)>,
    pub column_units: Vec<(i64, i64)>,
}
impl Scaled {
    pub fn random(rng: &mut Rng, p: &GCfg) -> Scaled {
        let mut f = |rng: &mut Rng| {
            let mut v = vec![];
            for q in [2u64, 3, 5] {
                if rng.chance(2, 5) {
                    v.push((q, *pick(rng, &[1, 1, 2, -1, -2, 3])));
                }
            }
            v
        };
        let (m, n) = (p.rows.len(), p.vars.len());
        let units = [(1, 1), (1, 1), (2, 1), (3, 1), (6, 1), (1, 2), (4, 3), (25, 1)];
        Scaled {
            rows: (0..m).map(|_| f(rng)).collect(),
            lower: (0..n).map(|_| f(rng)).collect(),
            upper: (0..n).map(|_| f(rng)).collect(),
            cost: (0..n).map(|_| f(rng)).collect(),
            entries: (0..m).map(|_| (0..n).map(|_| f(rng)).collect()).collect(),
            row_units: (0..m).map(|_| *pick(rng, &units)).collect(),
            column_units: (0..n).map(|_| *pick(rng, &units)).collect(),
        }
    }
    /// Matrix of the equality form.
    pub fn std_matrix(&self, p: &GCfg) -> Vec<Vec<Q>> {
        let mut a = p.std_matrix();
        let q = |u: (i64, i64)| Q::new(u.0 as i128, u.1 as i128);
        for i in 0..p.rows.len() {
            for (t, (j, _)) in p.parts().into_iter().enumerate() {
                a[i][t] = a[i][t].mul(q(self.row_units[i])).mul(q(self.column_units[j]));
            }
        }
        a
    }
}

/// A program as it is written down in a text.
#[derive(Clone, Debug)]
pub struct Text {
    pub sense: &'static str,
    /// Kind and name
    pub rows: Vec<(char, String)>,
    pub columns: Vec<TColumn>,
    /// Groups of values per row
    pub rhs: Vec<Vec<(usize, V)>>,
    pub ranges: Vec<Vec<(usize, V)>>,
    /// Group, type, column, value
    pub bounds: Vec<(usize, &'static str, usize, Option<V>)>,
    pub style: Style,
}
#[derive(Clone, Debug)]
pub struct TColumn {
    pub name: String,
    pub integer: bool,
    /// Row, `None` for the costs
    pub entries: Vec<(Option<usize>, V)>,
}
/// How it is written.
#[derive(Clone, Debug)]
pub struct Style {
    pub fixed: bool,
    pub seed: u64,
    /// Two entries per line where possible
    pub pairs: bool,
    /// Numbers at the start of the field
    pub left: bool,
    /// Spaces at the end of the lines
    pub trailing: bool,
    pub comments: bool,
    /// Row types in the third column
    pub shifted: bool,
    /// The first group of values has no name
    pub anonymous: bool,
}
impl V {
    pub fn text(&self) -> String {
        match self {
            V::K(i) => format!("{i}"),
            V::Free(s, i) | V::NonNeg(s, i) | V::Pos(s, i) | V::NonZero(s, i) | V::Neg(s, i) => format!("@{s}{i}"),
            V::Lin(..) => panic!("not a value of a text"),
        }
    }
}
impl Text {
    pub fn values(&self) -> Vec<V> {
        let mut v: Vec<V> = vec![];
        for c in &self.columns {
            v.extend(c.entries.iter().map(|x| x.1.clone()));
        }
        for g in self.rhs.iter().chain(&self.ranges) {
            v.extend(g.iter().map(|x| x.1.clone()));
        }
        v.extend(self.bounds.iter().filter_map(|b| b.3.clone()));
        v
    }
    /// One line with fields 1 to 6, of which some may be empty.
    fn line(&self, rng: &mut Rng, fields: [&str; 6]) -> String {
        let s = &self.style;
        let mut l = String::new();
        if s.fixed {
            let starts = [1usize, 4, 14, 24, 39, 49];
            let widths = [2usize, 8, 8, 12, 8, 12];
            for (i, f) in fields.iter().enumerate() {
                if f.is_empty() {
                    continue;
                }
                assert!(f.len() <= widths[i]);
                let number = i == 3 || i == 5;
                let at = if number && !s.left { starts[i] + widths[i] - f.len() } else { starts[i] };
                let at = if i == 0 && s.shifted && f.len() == 1 { 2 } else { at };
                while l.len() < at {
                    l.push(' ');
                }
                l.push_str(f);
            }
            if s.trailing {
                while l.len() < 61 {
                    l.push(' ');
                }
            }
        } else {
            for f in fields.iter().filter(|f| !f.is_empty()) {
                for _ in 0..rng.range(1, 4) {
                    l.push(' ');
                }
                l.push_str(f);
            }
            if s.trailing {
                l.push_str("  ");
            }
        }
        l.push('\n');
        l
    }
    fn noise(&self, rng: &mut Rng, out: &mut String) {
        if self.style.comments && rng.chance(1, 4) {
            out.push_str(*pick(rng, &["* a comment\n", "\n", " * ROWS\n", "*\n", "*    X         R         1\n"]));
        }
    }
    fn entries(&self, rng: &mut Rng, out: &mut String, name: &str, v: &[(String, String)]) {
        let mut i = 0;
        while i < v.len() {
            self.noise(rng, out);
            if self.style.pairs && i + 1 < v.len() && rng.chance(3, 4) {
                out.push_str(&self.line(rng, ["", name, &v[i].0, &v[i].1, &v[i + 1].0, &v[i + 1].1]));
                i += 2;
            } else {
                out.push_str(&self.line(rng, ["", name, &v[i].0, &v[i].1, "", ""]));
                i += 1;
            }
        }
    }
    /// Name of a group of values.
    fn group(&self, name: &str, g: usize) -> String {
        if self.style.anonymous && g == 0 { String::new() } else { format!("{name}{g}") }
    }
    pub fn write(&self) -> String {
        let mut rng = Rng::new(self.style.seed, 7);
        let rng = &mut rng;
        let mut out = String::new();
        self.noise(rng, &mut out);
        out.push_str("NAME          PROGRAM\n");
        if !self.sense.is_empty() {
            out.push_str(&format!("OBJSENSE\n  {}\n", self.sense));
        }
        out.push_str("ROWS\n");
        let cost_at = rng.below(self.rows.len() as u64 + 1) as usize;
        for i in 0..=self.rows.len() {
            self.noise(rng, &mut out);
            if i == cost_at {
                out.push_str(&self.line(rng, ["N", "COST", "", "", "", ""]));
            }
            if i < self.rows.len() {
                out.push_str(&self.line(rng, [&self.rows[i].0.to_string(), &self.rows[i].1, "", "", "", ""]));
            }
        }
        out.push_str("COLUMNS\n");
        let mut integer = false;
        let mut markers = 0;
        let mut marker = |rng: &mut Rng, out: &mut String, to: &str| {
            let name = format!("M{markers}");
            markers += 1;
            out.push_str(&if self.style.fixed {
                let mut l = format!("    {name:<8}  'MARKER'                 {to}");
                if self.style.trailing {
                    l.push_str("   ");
                }
                l.push('\n');
                l
            } else {
                self.line(rng, ["", &name, "'MARKER'", to, "", ""])
            });
        };
        for c in &self.columns {
            if c.integer != integer {
                marker(rng, &mut out, if c.integer { "'INTORG'" } else { "'INTEND'" });
                integer = c.integer;
            }
            let v: Vec<(String, String)> = c.entries.iter().map(|(r, v)| (r.map_or("COST".to_string(), |i| self.rows[i].1.clone()), v.text())).collect();
            self.entries(rng, &mut out, &c.name, &v);
        }
        if integer && rng.chance(1, 2) {
            marker(rng, &mut out, "'INTEND'");
        }
        for (title, groups, name) in [("RHS\n", &self.rhs, "RHS"), ("RANGES\n", &self.ranges, "RNG")] {
            if !groups.is_empty() {
                out.push_str(title);
                for (g, values) in groups.iter().enumerate() {
                    let v: Vec<(String, String)> = values.iter().map(|(i, v)| (self.rows[*i].1.clone(), v.text())).collect();
                    self.entries(rng, &mut out, &self.group(name, g), &v);
                }
            }
        }
        if !self.bounds.is_empty() {
            out.push_str("BOUNDS\n");
            for (g, kind, j, v) in &self.bounds {
                self.noise(rng, &mut out);
                let text = v.as_ref().map_or(String::new(), |v| v.text());
                out.push_str(&self.line(rng, [kind, &self.group("BND", *g), &self.columns[*j].name, &text, "", ""]));
            }
        }
        out.push_str(if rng.chance(1, 2) { "ENDATA\n" } else { "ENDATA" });
        out
    }
    /// A text with `n` columns and `m` rows. what: r with ranges, b with bounds, m with several groups,
    /// f for the reader of columns only, w for the reader of words only
    pub fn random(rng: &mut Rng, n: usize, m: usize, fixed: bool, what: &str) -> Text {
        let mut names: Vec<&str> = vec!["R1", "LIM2", "EIGHTCHR", "a", "Z", "R.3", "COST2", "x0"];
        let mut column_names: Vec<&str> = vec!["x0", "Y9", "ALPHA", "b", "EIGHTCOL", "R1", "COST1", "x10", "x_1"];
        if what.contains('f') {
            // Spaces within a name
            names.extend(["A ROW", "R 1", "a  b"]);
            column_names.extend(["A COL", "x 0", "x  0"]);
        }
        if what.contains('w') {
            names.extend(["A_NAME_OF_A_ROW_IN_FULL", "R123456789", "R123456780"]);
            column_names.extend(["A_NAME_OF_A_COLUMN_IN_FULL", "x123456789", "x123456780"]);
        }
        let usual = rng.chance(1, 3);
        for i in (1..column_names.len()).rev() {
            let j = rng.below(i as u64 + 1) as usize;
            column_names.swap(i, j);
        }
        for i in (1..names.len()).rev() {
            let j = rng.below(i as u64 + 1) as usize;
            names.swap(i, j);
        }
        let rows: Vec<(char, String)> = (0..m).map(|i| (*pick(rng, &['L', 'G', 'E']), names[i].to_string())).collect();
        let columns = (0..n)
            .map(|j| {
                let mut entries: Vec<(Option<usize>, V)> = vec![];
                for i in 0..m {
                    if rng.chance(2, 3) {
                        entries.push((Some(i), if rng.chance(1, 2) { V::K(*pick(rng, &[1, -1, 2, -3, 10])) } else { V::Free("a", 10 * i + j) }));
                    }
                }
                if entries.is_empty() || rng.chance(2, 3) {
                    entries.push((None, if rng.chance(1, 4) { V::K(*pick(rng, &[1, -1, 7])) } else { V::Free("c", j) }));
                }
                for i in (1..entries.len()).rev() {
                    let k = rng.below(i as u64 + 1) as usize;
                    entries.swap(i, k);
                }
                TColumn { name: if usual { format!("x{j}") } else { column_names[j].to_string() }, integer: rng.chance(1, 4), entries }
            })
            .collect();
        let mut t = Text {
            sense: *pick(rng, &["", "", "MIN", "MINIMIZE", "MAX", "MAXIMIZE"]),
            rows,
            columns,
            rhs: vec![],
            ranges: vec![],
            bounds: vec![],
            style: Style {
                fixed,
                seed: rng.next(),
                pairs: rng.chance(2, 3),
                left: rng.chance(1, 3),
                trailing: rng.chance(1, 3),
                comments: rng.chance(1, 2),
                shifted: rng.chance(1, 3),
                anonymous: what.contains('f') && rng.chance(1, 4),
            },
        };
        let groups = if what.contains('m') { 2 } else { 1 };
        for g in 0..groups {
            let mut v = vec![];
            for i in 0..m {
                if rng.chance(if g == 0 { 3 } else { 2 }, 4) {
                    v.push((i, if rng.chance(1, 5) { V::K(rng.range(-4, 4)) } else { V::Free("b", 10 * g + i) }));
                }
            }
            if !v.is_empty() {
                if rng.chance(1, 3) {
                    v.reverse();
                }
                t.rhs.push(v);
            }
        }
        if what.contains('r') {
            let mut v = vec![];
            for i in 0..m {
                if rng.chance(2, 3) {
                    v.push((i, if rng.chance(1, 6) { V::K(*pick(rng, &[0, 1, -2])) } else { V::Free("r", i) }));
                }
            }
            if !v.is_empty() {
                if rng.chance(1, 3) {
                    v.reverse();
                }
                if v.len() > 1 && rng.chance(1, 4) {
                    let rest = v.split_off(1);
                    t.ranges.push(v);
                    t.ranges.push(rest);
                } else {
                    t.ranges.push(v);
                }
            }
        }
        if what.contains('b') {
            for j in 0..n {
                let combination: &[&'static str] = *pick(
                    rng,
                    &[
                        &[][..], &["LO"], &["UP"], &["LO", "UP"], &["UP", "LO"], &["FX"], &["FR"], &["MI"], &["PL"], &["BV"], &["LI"], &["UI"], &["LI", "UI"],
                        &["LO", "LO"], &["UP", "UP"], &["UP", "LO", "UP"], &["UI", "LO"], &["LO", "UI", "UP"], &["FX", "UP"], &["BV", "UP"], &["MI", "UP"],
                        &["UP", "MI"], &["LO", "PL"], &["FR", "FR"], &["UP", "UI"],
                    ],
                );
                // Anything but free, or one of the usual ones
                let any: Vec<&'static str> =
                    (0..rng.range(1, 3)).map(|_| *pick(rng, &["LO", "UP", "FX", "MI", "PL", "BV", "BV", "LI", "UI"])).collect();
                let combination = if rng.chance(1, 3) { &any[..] } else { combination };
                for (i, kind) in combination.iter().enumerate() {
                    let value = match *kind {
                        "FR" | "MI" | "PL" | "BV" => None,
                        _ => Some(if rng.chance(1, 6) { V::K(rng.range(-2, 4)) } else { V::Free("l", 10 * i + j) }),
                    };
                    let group = if rng.chance(1, 6) { 1 } else { 0 };
                    t.bounds.push((group, kind, j, value));
                }
            }
            if rng.chance(1, 3) {
                // Mixed; the order within a column does matter for free variables only
                t.bounds.sort_by_key(|b| b.0);
            }
        }
        t
    }
}
