#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
P = []
A2 = "src/algorithm/two_phase/"
GF = "src/data/linear_program/general_form/"
IM = A2 + "tableau/inverse_maintenance/"
LU = IM + "carry/lower_upper/"
PS = GF + "presolve/"
MPS = "src/io/mps/"

def p(id, title, statement, over, text, why, files, mech, hook=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("S01", "A reported optimum is a feasible point",
  "When the solver reports a finite optimum for a linear program in canonical form (equality, ranged, upper and lower inequality rows, variable upper bounds), the reported values are nonnegative, respect every upper bound and satisfy every row exactly. This holds whichever basis-inverse engine is used.",
  ["inputs"], "For all values of right-hand sides, ranges, upper bounds, costs and coefficients, for every mix of row kinds.",
  "The tests solve a few dozen fixed programs; which rows need artificial variables, which pivots are taken and where ties occur depends on the values.",
  [A2 + "mod.rs", A2 + "phase_one.rs", A2 + "phase_two.rs", A2 + "tableau/mod.rs", A2 + "matrix_provider/matrix_data.rs", IM + "carry/mod.rs"],
  [("two phase driver", A2 + "mod.rs"), ("ratio test", A2 + "tableau/mod.rs"), ("basic solution bookkeeping", IM + "carry/mod.rs")],
  observe=["result of the relaxation solve, after reconstruction"])
p("S02", "A reported optimum cannot be improved",
  "When the solver reports a finite optimum, no feasible point has a strictly lower cost. This holds whichever basis-inverse engine is used.",
  ["inputs"], "For all values of costs, right-hand sides, ranges, bounds and coefficients, and for all competing feasible points.",
  "Optimality quantifies over all feasible points and all data; tests compare with a known optimum for fixed data.",
  [A2 + "mod.rs", A2 + "phase_two.rs", A2 + "strategy/pivot_rule.rs", A2 + "tableau/mod.rs", IM + "carry/mod.rs"],
  [("stop only when no reduced cost is negative", A2 + "phase_two.rs"), ("reduced cost computation", A2 + "tableau/mod.rs")])
p("S03", "Infeasible is reported exactly for infeasible programs",
  "The solver answers that a program is infeasible if and only if no point satisfies all rows and bounds.",
  ["inputs"], "For all values of the data, for every mix of row kinds and whichever basis-inverse engine is used.",
  "Both directions quantify over all data; the unit tests contain only a few infeasible programs.",
  [A2 + "phase_one.rs", A2 + "mod.rs", IM + "carry/mod.rs"],
  [("artificial cost of phase one must reach zero", A2 + "phase_one.rs")])
p("S04", "Unbounded is reported exactly for unbounded programs",
  "The solver answers that a program is unbounded if and only if it is feasible and its cost can be lowered without limit.",
  ["inputs"], "For all values of the data, for every mix of row kinds and whichever basis-inverse engine is used.",
  "Requires deciding the existence of an improving direction for every data value; tests hold a handful of unbounded programs.",
  [A2 + "phase_two.rs", A2 + "tableau/mod.rs"],
  [("no pivot row for an improving column", A2 + "phase_two.rs"), ("ratio test", A2 + "tableau/mod.rs")])
p("S05", "Linearly dependent rows are harmless",
  "Adding rows that are linear combinations of other equality rows does not change the verdict or the optimal cost when the right-hand sides are consistent, and makes the program infeasible when they are not.",
  ["inputs"], "For all right-hand sides, costs and multipliers of the dependent rows, including several dependent rows and dependent rows in any position.",
  "Row removal after phase one depends on which artificial variables stay basic, a data dependent degenerate situation that fixed examples meet only in one way.",
  [A2 + "phase_one.rs", A2 + "matrix_provider/filter/generic_wrapper.rs", IM + "carry/mod.rs", A2 + "tableau/kind/non_artificial.rs"],
  [("detecting and removing redundant rows after phase one", A2 + "phase_one.rs"), ("row filter on the problem", A2 + "matrix_provider/filter/generic_wrapper.rs")])
p("S06", "All entering-variable strategies give the same answer",
  "Solving from the same feasible start with any of the shipped entering-variable strategies gives the same verdict and, when finite, the same optimal cost.",
  ["inputs", "configurations"], "For all data values and every shipped strategy.",
  "Tests run one strategy per program, so an error in bookkeeping of one strategy goes unseen when the default solves the example.",
  [A2 + "strategy/pivot_rule.rs", A2 + "phase_two.rs"],
  [("strategies", A2 + "strategy/pivot_rule.rs")], hook="relp_verif cfg if a strategy is not reachable publicly")
p("S07", "Entering strategies select only improving columns and miss none",
  "An entering-variable strategy returns a nonbasic column with strictly negative reduced cost whenever at least one exists, and none otherwise; the steepest-descent strategies return a column whose rate of descent is maximal under their own measure.",
  ["inputs", "histories"], "For all data values and every reachable sequence of basis changes within the bound.",
  "The rate measure is updated incrementally over pivots; the tests check one or two pivots on a fixed example.",
  [A2 + "strategy/pivot_rule.rs"],
  [("incremental weights", A2 + "strategy/pivot_rule.rs")])
p("S08", "The leaving row keeps the basic solution nonnegative",
  "For an entering column, the selected leaving row has a positive pivot element and attains the minimum ratio, so all basic values remain nonnegative after the exchange; no row is selected only if the column has no positive element.",
  ["inputs"], "For all column and basic-solution values including ties and zeros.",
  "Ties and sign patterns quantify over real values; the tests hold one or two columns.",
  [A2 + "tableau/mod.rs"],
  [("ratio test with tie break", A2 + "tableau/mod.rs")])
p("S09", "The tableau state is exact after every basis change",
  "After any sequence of basis changes the maintained basic solution, cost, reduced costs and generated columns equal those computed from scratch from the current basis and the original data.",
  ["inputs", "histories"], "For all data values and every sequence of admissible basis changes within the bound, with every basis-inverse engine.",
  "Incremental updates accumulate over a history; tests look at states after one or two exchanges with fixed numbers.",
  [A2 + "tableau/mod.rs", IM + "carry/mod.rs", IM + "carry/basis_inverse_rows.rs", LU + "mod.rs"],
  [("incremental update of basic solution and dual row", IM + "carry/mod.rs"), ("row engine", IM + "carry/basis_inverse_rows.rs")])
p("S10", "Cold starts from a supplied basis are exact",
  "When the caller supplies a complete or partial set of initial basic columns, the solve starts from exactly that basis with the basic values, dual row and cost that basis implies, and gives the same verdict and cost as a solve without it.",
  ["inputs", "configurations"], "For all data values and all placements of the initial unit columns.",
  "Tests construct one such start with fixed numbers.",
  [A2 + "mod.rs", A2 + "phase_one.rs", IM + "carry/mod.rs", A2 + "tableau/kind/artificial/partially.rs"],
  [("partial artificial basis", A2 + "tableau/kind/artificial/partially.rs"), ("basis supplied by the caller", IM + "carry/mod.rs")])
p("S11", "Solving valid programs never panics",
  "Solving any well-formed linear program ends in one of the three verdicts, never in a crash, whatever its size (including a single row), and whichever basis-inverse engine is used.",
  ["inputs", "configurations"], "For all well-formed programs within the size bound, for all data values.",
  "A crash on a degenerate or tiny program needs specific values or sizes; the tests use generic ones.",
  [A2 + "mod.rs", A2 + "phase_one.rs", LU + "mod.rs", IM + "carry/mod.rs"],
  [("index and division safety of the engines", LU + "mod.rs")])
p("S12", "The simplex iteration terminates",
  "Solving any well-formed linear program takes finitely many basis exchanges; no basis is revisited for ever.",
  ["inputs"], "For all data values, in particular degenerate ones where the cost does not strictly decrease.",
  "Cycling needs specially crafted degenerate data.",
  [A2 + "phase_one.rs", A2 + "phase_two.rs", A2 + "strategy/pivot_rule.rs", A2 + "tableau/mod.rs"],
  [("tie breaking", A2 + "tableau/mod.rs")])
p("L01", "A fresh factorization represents the given basis exactly",
  "For every invertible basis matrix, factorizing it and then multiplying any column from the left with the represented inverse yields the exact solution of the linear system; the same holds for generating rows of the inverse.",
  ["inputs"], "For all entry values and sparsity patterns of invertible matrices within the size bound, and all right-hand columns.",
  "Pivot choice and cancellation depend on values and sparsity; the tests hold a few fixed matrices.",
  [LU + "mod.rs", LU + "decomposition/mod.rs", LU + "decomposition/pivoting.rs", LU + "permutation/mod.rs"],
  [("Markowitz pivoting and elimination", LU + "decomposition/mod.rs")])
p("L02", "The factorization stays exact under column replacement",
  "After any sequence of replacing one basis column by another (keeping the basis invertible), the maintained factorization represents exactly the updated basis.",
  ["inputs", "histories"], "For all entry values and every sequence of replacements up to the bound, in every pivot position.",
  "The update combines a rotation, a row transformation and spike handling; interplay over several updates is not covered by tests with one or two fixed updates.",
  [LU + "mod.rs", LU + "eta_file.rs", LU + "permutation/rotate_to_back.rs"],
  [("update of the upper factor and row transformation", LU + "mod.rs"), ("row transformation", LU + "eta_file.rs")])
p("L03", "Periodic refactorization is transparent",
  "When the engine decides to recompute its factorization from scratch during a long run, the represented basis and the association between basis columns and rows stay what they were, so all later answers are unaffected.",
  ["inputs", "histories"], "For all entry values, for histories long enough to trigger the recomputation.",
  "It takes more than thirty updates to trigger; no unit test reaches it and the large test files are not compared value by value.",
  [IM + "carry/mod.rs", LU + "mod.rs"],
  [("recompute after many updates", IM + "carry/mod.rs")])
p("L04", "The two basis-inverse engines are interchangeable",
  "The dense-row engine and the factorization engine give the same generated columns, inverse rows and products for the same history of basis changes, and solves with either give the same verdict and optimal cost.",
  ["inputs", "histories", "configurations"], "For all data values and histories within the bound.",
  "Tests exercise the engines separately on different fixed programs.",
  [IM + "carry/mod.rs", IM + "carry/basis_inverse_rows.rs", LU + "mod.rs"],
  [("common interface of the engines", IM + "carry/mod.rs")])
p("L05", "Index permutations are bijections with consistent views",
  "For every index permutation used by the factorization, mapping forward and backward are mutually inverse, and permuting a list of indexed items moves each item to its mapped index and keeps sorted lists sorted.",
  ["inputs"], "For all permutations and all index lists within the length bound.",
  "Tests use a handful of small permutations.",
  [LU + "permutation/mod.rs", LU + "permutation/full.rs", LU + "permutation/swap.rs", LU + "permutation/rotate_to_back.rs"],
  [("permutation kinds", LU + "permutation/mod.rs")], hook="none: the files are mounted in the harness crate by path")
p("V01", "Sparse vector arithmetic equals dense arithmetic",
  "Adding a multiple of one sparse vector to another, element updates, inner products and removals give the same values as the corresponding dense computation, and the result never stores a zero or an index twice and stays ordered.",
  ["inputs"], "For all values (including exact cancellation) and all sparsity patterns within the length bound.",
  "Cancellation to zero depends on values, interleavings of patterns on positions; tests have few of each.",
  ["src/data/linear_algebra/vector/sparse.rs", "src/data/linear_algebra/vector/mod.rs", "src/data/linear_algebra/vector/dense.rs"],
  [("merging of sparse tuples", "src/data/linear_algebra/vector/sparse.rs")])
p("V02", "Matrix reorganisation preserves all entries",
  "Changing a sparse matrix between column and row order, concatenating, adding and removing rows and columns preserves exactly the remaining entries at their shifted positions.",
  ["inputs", "configurations"], "For all values, patterns and removal sets within the size bound.",
  "Tests check a few fixed matrices.",
  ["src/data/linear_algebra/matrix.rs"],
  [("order conversion", "src/data/linear_algebra/matrix.rs")])
p("M01", "The canonical matrix view represents exactly the given program",
  "The columns, costs, right-hand side and bound rows exposed to the simplex method describe a system whose nonnegative solutions, projected to the original columns, are exactly the points satisfying all rows, ranges and bounds, with the same cost; reconstruction of a solution performs this projection.",
  ["inputs", "configurations"], "For all data values, for every number of rows of each kind, and every subset of bounded variables.",
  "Slack and bound-row indices shift with the numbers of each row kind; tests use one mixture.",
  [A2 + "matrix_provider/matrix_data.rs", A2 + "matrix_provider/variable.rs"],
  [("index layout of slack columns and bound rows", A2 + "matrix_provider/matrix_data.rs")])
p("M02", "Filtering rows leaves exactly the other rows",
  "A program with a set of rows filtered out exposes precisely the remaining rows, in order, in its columns, right-hand side and bound row indices, and no others.",
  ["inputs", "configurations"], "For all values and all subsets of removed rows within the size bound.",
  "Index shifting depends on the removed set; tests remove a particular set.",
  [A2 + "matrix_provider/filter/generic_wrapper.rs", A2 + "matrix_provider/filter/mod.rs", A2 + "matrix_provider/column/mod.rs"],
  [("row filter wrapper", A2 + "matrix_provider/filter/generic_wrapper.rs")])
p("G01", "Standardization preserves the program",
  "Converting a general program to canonical form keeps its set of solutions and its cost: every feasible point has a counterpart with corresponding cost, every point of the canonical form maps back to a feasible point with the corresponding cost, and the canonical right-hand side is nonnegative.",
  ["inputs", "configurations"], "For all data values, objective directions, row kinds, and combinations of variable bounds (free, one-sided, two-sided, negative).",
  "Shifts, flips, splits and sign changes combine; tests check each alone on fixed numbers.",
  [GF + "mod.rs"],
  [("shift, flip, split, negate, reorder", GF + "mod.rs")])
p("G02", "Solutions are reported in terms of the original program",
  "After solving the canonical form, the reported solution assigns each original variable a value satisfying the original rows and bounds, and the reported objective value equals the original objective at that point.",
  ["inputs", "configurations"], "For all data values, objective directions and bound combinations.",
  "Requires the composition of all transformations; tests check few programs, and minimization only.",
  [GF + "mod.rs", "src/data/linear_program/solution.rs"],
  [("undoing shifts, flips and splits", GF + "mod.rs")])
p("G03", "Maximization returns the maximum",
  "For a maximization program, the reported point has the largest objective value among all feasible points and the reported objective value is that largest value with its true sign.",
  ["inputs"], "For all data values of maximization programs with fixed costs and shifted variables.",
  "Existing end-to-end tests minimize.",
  [GF + "mod.rs", PS + "updates.rs"],
  [("objective negation", GF + "mod.rs")])
p("G04", "Whole-pipeline solves return the optimum of the original program",
  "Presolving, standardizing, solving and mapping back a general program gives the verdict and the optimal objective value of the original program, with a feasible point attaining it.",
  ["inputs", "configurations"], "For all data values of general programs within the size bound.",
  "Composition of all parts over all values; tests hold some known optima of library files.",
  [GF + "mod.rs", PS + "mod.rs", A2 + "mod.rs"],
  [("pipeline", GF + "mod.rs")])
p("R01", "Presolve reports infeasible or unbounded only when true",
  "When presolving concludes that a program is infeasible, no point satisfies its rows and bounds; when it concludes that it is unbounded, its objective can be improved without limit from every feasible point.",
  ["inputs"], "For all data values and row or bound combinations within the size bound.",
  "Depends on the order of reductions and on bound values; tests cover each rule on fixed numbers.",
  [PS + "mod.rs", PS + "updates.rs", PS + "rule/domain_propagation.rs", PS + "rule/bound_constraint.rs"],
  [("activity bounds", PS + "rule/domain_propagation.rs"), ("bound comparison", PS + "updates.rs")])
p("R02", "Presolve keeps every attainable objective value that matters",
  "For every feasible point of the original program there is a point of the presolved program that is feasible and whose objective value, including constants moved out, is at least as good.",
  ["inputs"], "For all data values and all feasible points.",
  "Quantifies over feasible points; tests compare the reduced program with an expected one for fixed numbers.",
  [PS + "rule/slack.rs", PS + "rule/domain_propagation.rs", PS + "rule/bound_constraint.rs", PS + "rule/fixed_variable.rs", PS + "updates.rs"],
  [("reduction rules", PS + "mod.rs")])
p("R03", "Presolved solutions extend to original solutions",
  "Every feasible point of the presolved program is extended by the recovery step to a point that satisfies all original rows and bounds, with objective value equal to the presolved one plus the moved constant.",
  ["inputs"], "For all data values and all feasible points of the presolved program.",
  "Quantifies over points; tests recover one point per example.",
  [PS + "rule/slack.rs", GF + "mod.rs", PS + "updates.rs"],
  [("elimination records", GF + "mod.rs")])
p("R04", "Presolve never crashes or loops on valid programs",
  "Presolving a well-formed program terminates with a reduced program, a complete solution or a verdict, without crashing.",
  ["inputs"], "For all data values within the size bound, including boundary coincidences such as bounds meeting right-hand sides.",
  "Coincidences between values are rarely in examples.",
  [PS + "mod.rs", PS + "rule/domain_propagation.rs", PS + "queues.rs", PS + "counters.rs"],
  [("counters and queues", PS + "counters.rs")])
p("R05", "Scaling is equivalent and reversible",
  "Scaling a program gives an equivalent program: undoing the scaling restores exactly the original data, and a solution of the scaled program, scaled back, satisfies the original rows and bounds with proportional objective value.",
  ["inputs"], "For all data values and all factor structures within the bound, including programs in which no common factors exist.",
  "Tests check a few fixed programs whose numbers have factors.",
  [PS + "scale/mod.rs", PS + "scale/rational/mod.rs"],
  [("row and column factors", PS + "scale/mod.rs")])
p("I01", "Imported MPS text means what the format defines",
  "The program obtained from MPS text has exactly the objective direction, cost coefficients, row kinds, coefficients and right-hand sides written in the text, with missing right-hand sides equal to zero.",
  ["inputs", "configurations"], "For all numeric values and all section layouts within the bound.",
  "Tests compare a few files with expected structures.",
  [MPS + "parse/mod.rs", MPS + "convert.rs"],
  [("section parsing", MPS + "parse/mod.rs"), ("conversion", MPS + "convert.rs")])
p("I02", "MPS row ranges follow the format's table",
  "A range on a row limits the row activity to the interval the MPS format defines from the row kind, the right-hand side (zero when absent) and the sign of the range value.",
  ["inputs", "configurations"], "For all right-hand side and range values of either sign, for every row kind, with and without a right-hand side entry.",
  "Sign and absence combinations; tests check positive values with explicit right-hand sides.",
  [MPS + "convert.rs"],
  [("range conversion", MPS + "convert.rs")])
p("I03", "MPS variable bounds follow the format",
  "The interval of every variable is the one implied by its bound entries: default lower bound zero, explicit lower, upper, fixed, free, infinite and binary bounds, the tightest of repeated bounds, and integrality where declared.",
  ["inputs", "configurations"], "For all bound values and all sequences of bound entries for a variable up to the bound.",
  "Order and repetition of entries combine with values; tests cover single entries.",
  [MPS + "convert.rs", MPS + "parse/mod.rs"],
  [("bound processing", MPS + "convert.rs")])
p("I04", "Decimal literals are read exactly",
  "A decimal literal in MPS text (optional minus sign, digits, optional fraction) is read as exactly the rational number it denotes, or rejected with an error.",
  ["inputs"], "For all literals up to the length bound.",
  "The set of literals is far larger than the listed examples, and rounding or carry errors depend on digit positions.",
  [MPS + "number/parse.rs"],
  [("integer and fraction digits", MPS + "number/parse.rs")], hook="none: the file is mounted in the harness crate by path")
p("I05", "Fixed and free MPS readers agree",
  "For text that is valid in both the column-aligned and the whitespace-separated MPS format, both readers give the same program.",
  ["inputs", "configurations"], "For all numeric values and layouts within the bound.",
  "Each reader is tested on its own examples.",
  [MPS + "parse/fixed.rs", MPS + "parse/free.rs"],
  [("field extraction", MPS + "parse/fixed.rs")])
p("I06", "Malformed input text is rejected with an error, never a crash",
  "Reading arbitrary text as a program or number returns either a program or an error value; it never crashes the caller.",
  ["inputs"], "For all texts up to the length bound.",
  "Tests try a few malformed lines.",
  [MPS + "parse/mod.rs", MPS + "number/parse.rs", "src/io/mod.rs"],
  [("error returns", "src/io/error.rs")])
p("N01", "Network programs encode the graph exactly",
  "The incidence columns built from a weighted directed graph have, for each arc in order, the leaving and entering sign at the tail and head vertex with the chosen vertices left out, so that shortest-path and flow programs built on them have the graph's optimum.",
  ["inputs", "configurations"], "For all arc weights and all arc sets and removed vertices within the size bound.",
  "Index shifts depend on the removed vertices; tests use one graph.",
  ["src/data/linear_program/network/representation.rs"],
  [("incidence columns", "src/data/linear_program/network/representation.rs")])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
for d in P: assert len(d["title"]) <= 80, d["title"]; 
print(len(P))
