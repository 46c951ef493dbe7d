//! Index permutations: forward and backward are each other's inverse, and lists of items are
//! permuted like the indices are.
#[cfg(not(kani))]
use crate::kani;
use crate::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::permutation::*;

/// Largest permutation that is stored explicitly.
const N: usize = 5;

/// An index in the permutation.
fn below(n: usize) -> usize {
    kani::any_where(|&i| i < n)
}
/// Any permutation of `n` indices.
fn any_full(n: usize) -> ([usize; N], FullPermutation) {
    let mut image = [0; N];
    let mut forward = Vec::with_capacity(N);
    for i in 0..n {
        image[i] = below(n);
        for j in 0..i {
            kani::assume(image[j] != image[i]);
        }
        forward.push(image[i]);
    }
    (image, FullPermutation::new(forward))
}
/// Any of the permutations that isn't stored explicitly: these are of any size.
fn any_rotate() -> RotateToBackPermutation {
    let n: usize = kani::any_where(|&n| 1 <= n);
    RotateToBackPermutation::new(below(n), n)
}
fn any_swap() -> SwapPermutation {
    let n: usize = kani::any_where(|&n| 1 <= n);
    SwapPermutation::new((below(n), below(n)), n)
}
/// Solvers need less time for smaller indices.
fn small_swap() -> SwapPermutation {
    let n: usize = kani::any_where(|&n| 1 <= n && n <= 8);
    SwapPermutation::new((below(n), below(n)), n)
}
fn any_identity() -> IdentityPermutation {
    IdentityPermutation::new(kani::any_where(|&n: &usize| 1 <= n))
}

/// For any index, both directions stay in range and undo each other.
fn inverse(p: &impl Permutation, n: usize) {
    assert!(p.len() == n, "another size");
    let i = below(n);
    let j = p.forward(i);
    assert!(j < n, "an index is mapped out of range");
    assert!(p.backward(j) == i, "backward does not undo forward");
    let k = p.backward(i);
    assert!(k < n, "an index is mapped out of range backward");
    assert!(p.forward(k) == i, "forward does not undo backward");
    let mut r = i;
    p.forward_ref(&mut r);
    assert!(r == j, "mapping in place differs from mapping");
    let mut r = i;
    p.backward_ref(&mut r);
    assert!(r == k, "mapping backward in place differs from mapping backward");
}

/// A list of items, each with its position in the list as its value.
fn any_items<const L: usize>(n: usize, sorted: bool) -> ([usize; L], [(usize, usize); L]) {
    let mut indices = [0; L];
    let mut items = [(0, 0); L];
    for t in 0..L {
        indices[t] = below(n);
        if sorted && t > 0 {
            kani::assume(indices[t - 1] < indices[t]);
        }
        items[t] = (indices[t], t);
    }
    (indices, items)
}
/// Sorted lists stay sorted while each item moves to the index it's mapped to.
fn moves_sorted<const L: usize>(p: &impl Permutation, forward: bool) {
    let n = p.len();
    let (indices, mut items) = any_items::<L>(n, true);
    if forward {
        p.forward_sorted(&mut items);
    } else {
        p.backward_sorted(&mut items);
    }
    for t in 0..L {
        let (i, tag) = items[t];
        assert!((tag as usize) < L, "an item that wasn't there");
        let from = indices[tag as usize];
        assert!(i == if forward { p.forward(from) } else { p.backward(from) }, "an item is moved elsewhere");
        assert!(t == 0 || items[t - 1].0 < i, "the list is not sorted afterwards");
    }
}
/// Lists in any order keep their order while each item moves to the index it's mapped to.
fn moves_unsorted<const L: usize>(p: &impl Permutation, forward: bool) {
    let n = p.len();
    let (indices, mut items) = any_items::<L>(n, false);
    if forward {
        p.forward_unsorted(&mut items);
    } else {
        p.backward_unsorted(&mut items);
    }
    for t in 0..L {
        let (i, tag) = items[t];
        assert!(tag as usize == t, "the order of the items changed");
        assert!(i == if forward { p.forward(indices[t]) } else { p.backward(indices[t]) }, "an item is moved elsewhere");
    }
}

/// What the standard library does to slices, in a way that's easy to encode.
unsafe fn rotate<T>(left: usize, middle: *mut T, right: usize) {
    // Move the elements on the right to the left, one at a time.
    let start = middle.sub(left);
    let mut end = left;
    while end < left + right {
        let last = std::ptr::read(start.add(end));
        let mut i = end;
        while i > end - left {
            std::ptr::write(start.add(i), std::ptr::read(start.add(i - 1)));
            i -= 1;
        }
        std::ptr::write(start.add(i), last);
        end += 1;
    }
}
fn stable_sort<T, F: FnMut(&T, &T) -> bool>(slice: &mut [T], mut is_less: F) { sort(slice, &mut is_less) }
fn sort<T, F: FnMut(&T, &T) -> bool>(slice: &mut [T], is_less: &mut F) {
    let mut end = slice.len();
    while end > 1 {
        let mut i = 1;
        while i < end {
            if is_less(&slice[i], &slice[i - 1]) {
                slice.swap(i - 1, i);
            }
            i += 1;
        }
        end -= 1;
    }
}

/// An explicitly stored permutation is the one that was asked for, and can be inverted.
fn full_inverse<const M: usize>() {
    let (image, p) = any_full(M);
    let i = below(M);
    assert!(p.forward(i) == image[i], "not the permutation that was asked for");
    assert!(p[i] == image[i], "indexing differs from mapping");
    inverse(&p, M);
}
/// Changes to a permutation, against a table.
fn full_changes<const M: usize, const C: usize>() {
    let mut p = FullPermutation::identity(M);
    let mut table = [0; M];
    for i in 0..M {
        table[i] = i;
    }
    for _ in 0..C {
        let (i, j) = (below(M), below(M));
        match kani::any::<u8>() {
            0 => {
                p.swap(i, j);
                table.swap(i, j);
            }
            1 => {
                p.swap_inverse(i, j);
                for t in 0..M {
                    table[t] = if table[t] == i { j } else if table[t] == j { i } else { table[t] };
                }
            }
            _ => {
                p.invert();
                let mut inverse = [0; M];
                for t in 0..M {
                    inverse[table[t]] = t;
                }
                table = inverse;
            }
        }
    }
    let i = below(M);
    assert!(p.forward(i) == table[i], "a change to the permutation does something else");
    inverse(&p, M);
}

macro_rules! harness {
    ($($name:ident, $solver:ident, $unwind:literal: $body:expr;)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            #[cfg_attr(kani, kani::solver($solver))]
            #[cfg_attr(kani, kani::stub(core::slice::rotate::ptr_rotate, rotate))]
            #[cfg_attr(kani, kani::stub(core::slice::sort::unstable::sort, sort))]
            #[cfg_attr(kani, kani::stub(alloc::slice::stable_sort, stable_sort))]
            pub fn $name() { $body; }
        )*
        /// For replaying a counterexample.
        #[cfg(not(kani))]
        pub fn run(name: &str) -> bool {
            $( if name == stringify!($name) { $name(); return true; } )*
            false
        }
    }
}
pub mod quick {
use super::*;
harness! {
    rotate_inverse, cadical, 3: { let p = any_rotate(); inverse(&p, p.len()) };
    swap_inverse, cadical, 3: { let p = any_swap(); inverse(&p, p.len()) };
    identity_inverse, cadical, 3: { let p = any_identity(); inverse(&p, p.len()) };
    rotate_sorted_forward_0, cadical, 3: moves_sorted::<0>(&any_rotate(), true);
    swap_sorted_forward_0, kissat, 3: moves_sorted::<0>(&small_swap(), true);
    rotate_sorted_forward_1, cadical, 3: moves_sorted::<1>(&any_rotate(), true);
    swap_sorted_forward_1, kissat, 3: moves_sorted::<1>(&small_swap(), true);
    rotate_sorted_forward_2, cadical, 4: moves_sorted::<2>(&any_rotate(), true);
    swap_sorted_forward_2, kissat, 4: moves_sorted::<2>(&small_swap(), true);
    rotate_sorted_forward_3, cadical, 5: moves_sorted::<3>(&any_rotate(), true);
    swap_sorted_forward_3, kissat, 5: moves_sorted::<3>(&small_swap(), true);
    rotate_sorted_forward_4, cadical, 6: moves_sorted::<4>(&any_rotate(), true);
    identity_sorted_forward, cadical, 5: moves_sorted::<3>(&any_identity(), true);
    rotate_unsorted_forward, cadical, 5: moves_unsorted::<3>(&any_rotate(), true);
    swap_unsorted_forward, cadical, 5: moves_unsorted::<3>(&any_swap(), true);
    identity_unsorted_forward, cadical, 5: moves_unsorted::<3>(&any_identity(), true);
    full_sorted_forward_2_2, cadical, 4: moves_sorted::<2>(&any_full(2).1, true);
    full_sorted_forward_3_2, cadical, 5: moves_sorted::<2>(&any_full(3).1, true);
    full_sorted_forward_3_3, cadical, 5: moves_sorted::<3>(&any_full(3).1, true);
    full_unsorted_forward, cadical, 5: moves_unsorted::<3>(&any_full(3).1, true);
    rotate_sorted_backward_0, cadical, 3: moves_sorted::<0>(&any_rotate(), false);
    swap_sorted_backward_0, kissat, 3: moves_sorted::<0>(&small_swap(), false);
    rotate_sorted_backward_1, cadical, 3: moves_sorted::<1>(&any_rotate(), false);
    swap_sorted_backward_1, kissat, 3: moves_sorted::<1>(&small_swap(), false);
    rotate_sorted_backward_2, cadical, 4: moves_sorted::<2>(&any_rotate(), false);
    swap_sorted_backward_2, kissat, 4: moves_sorted::<2>(&small_swap(), false);
    rotate_sorted_backward_3, cadical, 5: moves_sorted::<3>(&any_rotate(), false);
    swap_sorted_backward_3, kissat, 5: moves_sorted::<3>(&small_swap(), false);
    identity_sorted_backward, cadical, 5: moves_sorted::<3>(&any_identity(), false);
    rotate_unsorted_backward, cadical, 5: moves_unsorted::<3>(&any_rotate(), false);
    swap_unsorted_backward, cadical, 5: moves_unsorted::<3>(&any_swap(), false);
    identity_unsorted_backward, cadical, 5: moves_unsorted::<3>(&any_identity(), false);
    full_sorted_backward_2_2, cadical, 4: moves_sorted::<2>(&any_full(2).1, false);
    full_sorted_backward_3_2, cadical, 5: moves_sorted::<2>(&any_full(3).1, false);
    full_sorted_backward_3_3, cadical, 5: moves_sorted::<3>(&any_full(3).1, false);
    full_unsorted_backward, cadical, 5: moves_unsorted::<3>(&any_full(3).1, false);
    full_inverse_1, cadical, 3: full_inverse::<1>();
    full_inverse_2, cadical, 4: full_inverse::<2>();
    full_inverse_3, cadical, 5: full_inverse::<3>();
    full_inverse_4, cadical, 6: full_inverse::<4>();
    full_changes_2, cadical, 5: full_changes::<2, 3>();
    full_changes_3, cadical, 5: full_changes::<3, 3>();
}
}
pub mod thorough {
use super::*;
harness! {
    swap_sorted_forward_4, kissat, 6: moves_sorted::<4>(&small_swap(), true);
    rotate_sorted_backward_4, cadical, 6: moves_sorted::<4>(&any_rotate(), false);
    swap_sorted_backward_4, kissat, 6: moves_sorted::<4>(&small_swap(), false);
    any_swap_sorted_forward_1, cadical, 3: moves_sorted::<1>(&any_swap(), true);
    any_swap_sorted_forward_2, cadical, 4: moves_sorted::<2>(&any_swap(), true);
    any_swap_sorted_forward_3, cadical, 5: moves_sorted::<3>(&any_swap(), true);
    any_swap_sorted_forward_4, cadical, 6: moves_sorted::<4>(&any_swap(), true);
    rotate_sorted_forward_5, cadical, 7: moves_sorted::<5>(&any_rotate(), true);
    full_sorted_forward_4, cadical, 6: moves_sorted::<4>(&any_full(4).1, true);
    any_swap_sorted_backward_1, cadical, 3: moves_sorted::<1>(&any_swap(), false);
    any_swap_sorted_backward_2, cadical, 4: moves_sorted::<2>(&any_swap(), false);
    any_swap_sorted_backward_3, cadical, 5: moves_sorted::<3>(&any_swap(), false);
    any_swap_sorted_backward_4, cadical, 6: moves_sorted::<4>(&any_swap(), false);
    rotate_sorted_backward_5, cadical, 7: moves_sorted::<5>(&any_rotate(), false);
    full_sorted_backward_4, cadical, 6: moves_sorted::<4>(&any_full(4).1, false);
    full_inverse_5, cadical, 7: full_inverse::<5>();
    full_changes_3_4, cadical, 6: full_changes::<3, 4>();
    full_changes_4_3, cadical, 6: full_changes::<4, 3>();
    full_changes_4_5, cadical, 7: full_changes::<4, 5>();
}
}
