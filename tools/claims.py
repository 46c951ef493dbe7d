NA = {}
sym("S01 S02 S03 S04 S05 S06 S11 S12", "exhaustive over all right-hand sides or costs (or both) within each generated program shape; coefficients of the matrix are small fixed integers; the shapes and bounds are in the evidence")
sym("L01 L02 L03 L04", "exhaustive over the symbolic entries or the symbolic column for generated matrices and replacement histories; bounds in the evidence")
sym("S07 S08 S09 S10", "exhaustive over all right-hand sides and costs (partly matrix entries) for the generated matrices, start bases and exchange sequences; bounds in the evidence")
sym("V01 V02", "exhaustive over the symbolic entries and operands for generated sparsity patterns and sequences of operations; bounds in the evidence")
sym("M01 M02", "exhaustive over all right-hand sides, ranges, bounds, costs, points and the symbolic coefficients for the generated row mixes; bounds in the evidence")
sym("N01", "exhaustive over all weights within each generated graph; bounds in the evidence")
sym("G01 G02 G03", "exhaustive over all right-hand sides, ranges, bounds, costs, points and part of the coefficients within the generated program shapes; bounds in the evidence")
sym("G04", "exhaustive over all right-hand sides and ranges, bounds or costs within the generated program shapes; bounds in the evidence")
sym("R01 R02 R03 R04", "exhaustive over all right-hand sides, ranges, bounds, costs and points within the generated program shapes and up to the stated number of regions; bounds in the evidence")
sym("R05", "exhaustive over all values, bounds and costs within the generated program shapes and assumed partial factorizations; bounds in the evidence")
sym("I01 I02 I03 I05", "exhaustive over all numbers in the text (and all points of the program) within the generated texts; the layouts and bounds are in the evidence")
sym("I06", "exhaustive over all numbers in the generated damaged texts; which texts are damaged how is in the evidence")
kani("L05", "exhaustive over all sizes and indices (inverses; lists of at most 3 sorted items), all permutations of at most 4 stored indices and 3 changes to them; bounds per harness in kani/src/permutations.rs")
kani("I04", "exhaustive over all ASCII texts of at most 4 characters, texts with one two byte character of at most 3 bytes, and all digits in longer texts of fixed forms; bounds per harness in kani/src/literals.rs")
