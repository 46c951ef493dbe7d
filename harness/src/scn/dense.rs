// Providers defined by the harness: a dense equality form program, with none, some or all of the
// initial basis columns supplied.
use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
use relp::algorithm::two_phase::matrix_provider::column::Column as ColumnTrait;
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::IntoFilteredColumn;
use relp::algorithm::two_phase::phase_one::{FullInitialBasis, PartialInitialBasis};
use relp::data::linear_algebra::traits::{SparseComparator, SparseElement};
use relp::data::linear_program::elements::BoundDirection;

#[derive(Debug, Clone)]
pub struct Col(Vec<(usize, N)>);

impl IntoIterator for Col {
    type Item = (usize, N);
    type IntoIter = std::vec::IntoIter<(usize, N)>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
fn as_pair(p: &(usize, N)) -> (usize, &N) {
    (p.0, &p.1)
}
impl ColumnTrait for Col {
    type F = N;
    type Iter<'a> = std::iter::Map<std::slice::Iter<'a, (usize, N)>, fn(&'a (usize, N)) -> (usize, &'a N)>;
    fn iter(&self) -> Self::Iter<'_> {
        self.0.iter().map(as_pair as fn(&(usize, N)) -> (usize, &N))
    }
    fn index_to_string(&self, i: usize) -> String {
        self.0.iter().find(|p| p.0 == i).map_or("0".into(), |p| p.1.to_string())
    }
}
impl Identity for Col {
    fn identity(i: usize, _len: usize) -> Self {
        Col(vec![(i, k(1))])
    }
}
impl IntoFilteredColumn for Col {
    type Filtered = Col;
    fn into_filtered(self, to_remove: &[usize]) -> Col {
        Col(self
            .0
            .into_iter()
            .filter(|(i, _)| !to_remove.contains(i))
            .map(|(i, v)| (i - to_remove.iter().filter(|&&r| r < i).count(), v))
            .collect())
    }
}

/// A program `min c x, A x = b, x >= 0`.
pub struct Dn {
    pub m: usize,
    pub n: usize,
    pub cols: Vec<Vec<(usize, N)>>,
    pub b: Vec<N>,
    pub c: Vec<Option<N>>,
    pub pivots: Vec<(usize, usize)>,
}
impl Dn {
    pub fn new(e: &E, p: &EqCfg) -> Dn {
        let n = p.c.len();
        let mut cols = vec![vec![]; n];
        for (i, row) in p.a.iter().enumerate() {
            for (j, v) in row.iter().enumerate() {
                if *v != V::K(0) {
                    let x = input(e, v);
                    // Columns never hold explicit zeros
                    if relp_num::NonZero::is_not_zero(&x) {
                        cols[j].push((i, x));
                    }
                }
            }
        }
        Dn {
            m: p.a.len(),
            n,
            cols,
            b: p.b.iter().map(|v| input(e, v)).collect(),
            c: p.c.iter().map(|v| if *v == V::K(0) { None } else { Some(input(e, v)) }).collect(),
            pivots: p.pivots.clone(),
        }
    }
    pub fn cost(&self, j: usize) -> N {
        self.c[j].clone().unwrap_or_else(|| k(0))
    }
    pub fn costs(&self) -> Vec<N> {
        (0..self.n).map(|j| self.cost(j)).collect()
    }
    /// The basic values etc. of a basis, from scratch (Gauss elimination on the numbers themselves).
    pub fn dense_col(&self, j: usize) -> Vec<N> {
        let mut v = vec![k(0); self.m];
        for (i, x) in &self.cols[j] {
            v[*i] = x.clone();
        }
        v
    }
}

macro_rules! provider {
    ($name:ident) => {
        pub struct $name<'d>(pub &'d Dn);
        impl<'d> MatrixProvider for $name<'d> {
            type Column = Col;
            type Cost<'a>
                = Option<&'a N>
            where
                Self: 'a;
            type Rhs = N;
            fn column(&self, j: usize) -> Col {
                Col(self.0.cols[j].clone())
            }
            fn cost_value(&self, j: usize) -> Option<&N> {
                self.0.c[j].as_ref()
            }
            fn right_hand_side(&self) -> DenseVector<N> {
                DenseVector::new(self.0.b.clone(), self.0.m)
            }
            fn bound_row_index(&self, _j: usize, _t: BoundDirection) -> Option<usize> {
                None
            }
            fn nr_constraints(&self) -> usize {
                self.0.m
            }
            fn nr_variable_bounds(&self) -> usize {
                0
            }
            fn nr_columns(&self) -> usize {
                self.0.n
            }
            fn reconstruct_solution<G>(&self, v: SparseVector<G, G>) -> SparseVector<G, G>
            where
                G: SparseElement<G> + SparseComparator,
            {
                v
            }
        }
    };
}
provider!(Plain);
provider!(Part);
provider!(Full);
impl<'d> PartialInitialBasis for Part<'d> {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> {
        self.0.pivots.clone()
    }
    fn nr_initial_elements(&self) -> usize {
        self.0.pivots.len()
    }
}
impl<'d> PartialInitialBasis for Full<'d> {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> {
        self.0.pivots.clone()
    }
    fn nr_initial_elements(&self) -> usize {
        self.0.pivots.len()
    }
}
impl<'d> FullInitialBasis for Full<'d> {}
