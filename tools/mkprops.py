#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, obs, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=obs, hook_needed=hook)))
I = ["inputs"]; H = ["inputs", "histories"]
L = "lib/src/"; HI = "lib/include/"

prop("C01", "An ellipsoid cut never discards a point the cut allows",
 "Whenever the ellipsoid search space accepts a cut, every point of the old ellipsoid that satisfies the cut (g'(x-xc)+beta <= 0; for a parallel cut also g'(x-xc)+beta1 >= 0) lies in the new ellipsoid. This holds for deep, central, shallow and parallel cuts alike, after any history of cuts.",
 H, "all dimensions >= 2, start ellipsoids, cut histories, gradients and offsets (single and parallel, slab centred or not, one or both faces central)",
 "Unit tests only look at iteration counts of a handful of convergent problems; a lost optimum needs a specific geometry.",
 [L+"ell.cpp", HI+"ellcpp/ell.hpp"],
 [("centre/shape/scale update", L+"ell.cpp ell::update"), ("deep/central/parallel parameters", L+"ell.cpp ell::_calc_dc,_calc_cc,_calc_ll_core,_calc_ll_cc")],
 ["ell::update", "ell::xc", "ell::copy"],
 [dict(name="xc, kappa*Q", meaning="the represented ellipsoid", where=HI+"ellcpp/ell.hpp")])
prop("C02", "An accepted cut yields the minimum-volume enclosing ellipsoid",
 "Whenever the ellipsoid search space accepts a cut, the new ellipsoid is the smallest-volume ellipsoid that contains the part of the old ellipsoid satisfying the cut (for a parallel cut whose first face meets the old ellipsoid, the slab; a second face outside the old ellipsoid is as if absent). In particular its volume never grows and every number stays finite.",
 H, "all dimensions >= 2, start ellipsoids, cut histories, gradients and offsets",
 "Iteration counts of a few runs cannot tell a slightly suboptimal or mis-scaled update from the optimal one.",
 [L+"ell.cpp", HI+"ellcpp/ell.hpp"],
 [("mu/rho/sigma/delta formulas", L+"ell.cpp"), ("precomputed constants of n", HI+"ellcpp/ell.hpp ell::ell")],
 ["ell::update", "ell::xc", "ell::copy"])
prop("C03", "Cut verdicts are sound and a rejected cut changes nothing",
 "The search space answers 'no solution' exactly when a single cut leaves no point of the ellipsoid (for a parallel cut: only when the slab and the ellipsoid have no common interior, faces in crossed order included), and 'no effect' only when no smaller ellipsoid would contain what the cut leaves. After either answer the represented ellipsoid and its centre are exactly what they were.",
 H, "all start ellipsoids, cut histories, gradients and offsets away from rounding ties",
 "Tests reach the rejecting answers in two or three hand-picked problems and never look at the space afterwards.",
 [L+"ell.cpp", L+"ell_stable.cpp"],
 [("tau-beta and tau+n*beta tests", L+"ell.cpp ell::_calc_dc"), ("parallel tests", L+"ell.cpp ell::_calc_ll_core"), ("early return", L+"ell.cpp ell::update, ell_stable::update")],
 ["ell::update", "ell_stable::update"])
prop("C04", "Reported tau^2, options and copies of a search space are faithful",
 "Every update reports tau^2 = g'Pg for the ellipsoid {x: (x-xc)'P^-1(x-xc) <= 1} held before the cut, with P symmetric positive definite; constructing from a scalar or a diagonal and setting the centre give exactly that ellipsoid. Turning the deferred scaling off does not change the represented ellipsoids, turning parallel cuts off makes a parallel cut act as its first face, a one-element offset array acts as the plain number, and a copy evolves independently of its original.",
 H, "all start ellipsoids, cut histories and option settings",
 "Tests use each option once or never and compare iteration counts only.",
 [L+"ell.cpp", HI+"ellcpp/ell.hpp"],
 [("kappa scaling / no_defer_trick", L+"ell.cpp ell::update"), ("use_parallel_cut", L+"ell.cpp ell::_calc_ll_core"), ("copy/constructors/set_xc", HI+"ellcpp/ell.hpp")],
 ["ell::update", "ell::copy", "ell::set_xc", "ell::use_parallel_cut", "ell::no_defer_trick"])
prop("C05", "The stable search space makes the same steps as the ordinary one",
 "Applied to the ellipsoid it represents, every update of the stable (LDL^T) search space gives the verdict, tau^2, centre and ellipsoid that the ordinary search space gives for the same cut, and its shape stays symmetric positive definite and finite whatever the history.",
 H, "all start ellipsoids and cut histories (single and parallel cuts)",
 "Tests pin iteration counts of one history per problem and never compare the two search spaces step by step.",
 [L+"ell_stable.cpp", HI+"ellcpp/ell_stable.hpp"],
 [("forward/back substitution", L+"ell_stable.cpp ell_stable::update"), ("rank-one update of the factors", L+"ell_stable.cpp ell_stable::update")],
 ["ell_stable::update", "ell_stable::xc", "ell_stable::copy"])
prop("C06", "The one-dimensional search space cuts intervals exactly",
 "An accepted cut g(x-xc)+beta <= 0 turns the interval into exactly its intersection with the cut, a cut that leaves nothing answers 'no solution', a cut that removes nothing answers 'no effect', and the latter two leave the interval unchanged. The reported tau^2 is (half-width*g)^2 and copies are independent.",
 H, "all intervals, non-zero gradients of either sign, offsets, and histories of cuts",
 "The existing tests never exercise this class directly.",
 [L+"ell1d.cpp", HI+"ellcpp/ell1d.hpp"],
 [("interval update", L+"ell1d.cpp ell1d::update")], ["ell1d::update", "ell1d::xc"])
prop("C07", "The feasibility cutting-plane driver keeps its contract",
 "cutting_plane_feas queries the oracle at the current centre, passes exactly the returned cut to the search space, and stops at the first accepted point, rejected cut, tau^2 below tolerance, or exhausted iteration limit, reporting that outcome and the iteration number truthfully. So 'feasible' means the oracle accepts the centre of the search space, a problem whose feasible set contains a ball inside the start ellipsoid is solved within the theoretical number of iterations, and 'no solution' is only said of infeasible problems.",
 ["inputs", "histories", "configurations"], "all sequences of oracle answers and search-space statuses, all options, and random convex feasibility problems",
 "Tests run a few fixed problems to convergence and see only the last state.",
 [HI+"ellcpp/cutting_plane.hpp"],
 [("driver loop", HI+"ellcpp/cutting_plane.hpp cutting_plane_feas")], ["oracle calls", "search-space updates", "CInfo"])
prop("C08", "The optimization driver returns the best point it has seen",
 "cutting_plane_dc returns the point at which the oracle last improved the target, the target variable holds the value of that point and only ever improves, and 'feasible' means it did improve at least once. It stops only on a rejected cut, tau^2 below tolerance, or the iteration limit, reports which one, and for convex problems it never cuts off the optimum and on a small-enough stop its value is within sqrt(tol) of the optimum.",
 ["inputs", "histories", "configurations"], "all sequences of oracle answers and search-space statuses, all options, and random convex programs with known optimum",
 "Tests check one inequality on the result of a few fixed problems.",
 [HI+"ellcpp/cutting_plane.hpp"],
 [("driver loop", HI+"ellcpp/cutting_plane.hpp cutting_plane_dc")], ["oracle calls", "search-space updates", "returned x_best", "t", "CInfo"])
prop("C09", "The discrete driver retries, stops and reports correctly",
 "cutting_plane_q tells the oracle to retry exactly when the previous cut had no effect, returns the discrete point of the last improvement together with its value, and stops exactly on 'no solution', a no-effect cut without further alternatives, tau^2 below tolerance, or the iteration limit, reporting which. On convex integer problems with valid cuts it ends with the best discrete point it evaluated.",
 ["inputs", "histories", "configurations"], "all sequences of oracle answers and search-space statuses, all options, random discrete convex problems",
 "One problem with two search spaces is tested, and its no-effect path is not observed.",
 [HI+"ellcpp/cutting_plane.hpp"],
 [("driver loop and retry flag", HI+"ellcpp/cutting_plane.hpp cutting_plane_q")], ["oracle calls with retry flag", "search-space updates", "returned x_best", "CInfo"])
prop("C10", "Binary search brackets and returns the threshold",
 "bsearch only moves the upper end to points the oracle accepted and the lower end to points it rejected, so for a monotone oracle the final bracket contains the threshold, its width ends below twice the tolerance (at most one for integers) unless the iteration limit was hit, and the upper end is the smallest acceptable integer. It never exceeds the iteration limit and reports improvement, count and status truthfully.",
 ["inputs", "configurations"], "all integer, rational (as long as the integers below do not overflow) and floating-point intervals, up to the whole range of the type, thresholds, tolerances and iteration limits, monotone and arbitrary oracles",
 "bsearch is only reached through other tests with one interval of doubles.",
 [HI+"ellcpp/cutting_plane.hpp", HI+"ellcpp/half_nonnegative.hpp"],
 [("bisection loop", HI+"ellcpp/cutting_plane.hpp bsearch"), ("midpoint", HI+"ellcpp/half_nonnegative.hpp")], ["oracle calls", "final interval", "CInfo"])
prop("C11", "The bisection adaptor answers from a copy and keeps the best centre",
 "For every queried target the adaptor first tells the oracle the target, then runs the feasibility method with its own options on a copy of its search space, and answers whether a feasible point was found. The original space keeps its shape, and its centre moves to the found point exactly when the answer is yes, so the reported best point is feasible for the last accepted target.",
 H, "all sequences of targets, outcomes and options",
 "The adaptor is never tested directly.",
 [HI+"ellcpp/cutting_plane.hpp"],
 [("adaptor call", HI+"ellcpp/cutting_plane.hpp bsearch_adaptor")], ["oracle update/calls", "space copy/update/set_xc", "x_best"])
prop("C12", "LDL^T decides positive definiteness and certifies failure",
 "Factorizing a symmetric matrix succeeds exactly when it is positive definite (judged away from rounding ties, and exactly when all arithmetic is exact); on failure the witness v is a nonzero vector supported on the reported index range with v'Av = -ep <= 0, and the quadratic-form function returns v'Bv for every symmetric B. On success the square root is upper triangular with R'R = A; one object can be reused for any sequence of matrices, and only in-range lower-triangle entries are requested, row by row. In its semidefinite mode it succeeds exactly for positive semidefinite matrices.",
 H, "all symmetric matrices of all sizes, definite, semidefinite, indefinite, and all reuse sequences",
 "Tests use six fixed matrices.",
 [L+"ldlt_ext.cpp", HI+"ellcpp/oracles/ldlt_ext.hpp"],
 [("factorization", HI+"ellcpp/oracles/ldlt_ext.hpp ldlt_ext::factor"), ("witness, sym_quad, sqrt", L+"ldlt_ext.cpp")],
 ["factorize/factor", "witness", "sym_quad", "sqrt", "p", "v"])
prop("C13", "LMI oracles accept exactly the feasible points and cut validly",
 "Each linear-matrix-inequality oracle accepts x exactly when its matrix (B - sum F_k x_k, or sum F_k x_k for the homogeneous one) is positive definite; otherwise it returns (g, beta) with beta >= 0 that is the value and gradient of the quadratic form -v'F(.)v of one nonzero vector v. Hence no feasible point is cut off and the queried point is; the lazy and the dense variant agree, and an oracle can be queried any number of times.",
 H, "all sizes, symmetric coefficient matrices, points, and query sequences",
 "Tests run two fixed instances to convergence.",
 [L+"lmi_oracle.cpp", L+"lmi0_oracle.cpp", L+"lmi_old_oracle.cpp"],
 [("matrix evaluation and gradient", L+"lmi_oracle.cpp, lmi_old_oracle.cpp, lmi0_oracle.cpp")], ["oracle operator()"])
prop("C14", "The quadratic matrix inequality oracle cuts validly",
 "For the current target t the oracle accepts x exactly when t*I - F(x)'F(x) is positive definite, F(x) = F0 - sum F_k x_k of any shape; otherwise the cut is the value (>= 0) and gradient at x of z -> v'F(z)'F(z)v - t v'v for one nonzero vector v, so it never removes a point feasible for that t. Changing t takes effect at the next query.",
 H, "all rectangular shapes, coefficients, points, targets and query sequences",
 "Only symmetric coefficient matrices are reached through the covariance tests.",
 [L+"qmi_oracle.cpp", HI+"ellcpp/oracles/qmi_oracle.hpp"],
 [("lazy row evaluation and gradient", L+"qmi_oracle.cpp")], ["qmi_oracle::operator()", "qmi_oracle::update"])
prop("C15", "The lowpass-filter oracle enforces all its constraints",
 "The oracle improves its target only at points meeting every passband, stopband and nonnegativity constraint, and then the new target is the largest stopband value. Every cut it returns is violated or tight at the queried point and is satisfied, on both faces, by every point that meets all constraints with the current target; whatever the query history, any violated constraint is reported.",
 H, "all constraint matrices, ripple limits, points, targets and query histories",
 "One filter design is tested.",
 [L+"lowpass_oracle.cpp", HI+"ellcpp/oracles/lowpass_oracle.hpp"],
 [("round-robin constraint scan", L+"lowpass_oracle.cpp")], ["lowpass_oracle::operator()"])
prop("C16", "Profit oracles evaluate and cut the profit problem correctly",
 "The profit oracle rejects log-inputs above the resource limit with that constraint's cut, and otherwise returns the value and gradient of log(t + v'exp(y)) - log(pA) - a'y for the current target, improving the target to exactly the profit at y when it is better. The robust variant does so for the worst-case parameters for the signs of y, independently of earlier calls; the discrete variant does so at the nearest positive-integer input vector, kept on retry, shifted to a cut about the queried point.",
 H, "all positive parameters, uncertainties, points, targets and call sequences",
 "One parameter set is tested through iteration counts.",
 [L+"profit_oracle.cpp", HI+"ellcpp/oracles/profit_oracle.hpp"],
 [("profit oracle", L+"profit_oracle.cpp"), ("robust variant", HI+"ellcpp/oracles/profit_oracle.hpp")], ["operator() of the three oracles"])
prop("C17", "Negative-cycle search is exact and leaves feasible potentials",
 "The finder returns a non-empty edge list only if it is a closed directed cycle of the graph of negative total weight, and returns an empty one exactly when the graph has no negative cycle; then the potentials satisfy dist[v] <= dist[u] + w(u,v) for every edge. This holds for any initial potentials, parallel edges, self-loops and disconnected graphs, and one finder can be reused.",
 H, "all finite directed multigraphs, exact edge weights, initial potentials and reuse sequences",
 "Two fixed five-node graphs are tested.",
 [HI+"netoptim/neg_cycle.hpp"],
 [("relaxation, cycle search on predecessors", HI+"netoptim/neg_cycle.hpp negCycleFinder")], ["negCycleFinder::find_neg_cycle", "dist"])
prop("C18", "Minimum cycle ratio and parametric optimum are exact",
 "Started at or above the optimum, min_cycle_ratio returns a cycle whose cost/time ratio equals the updated ratio and is the minimum over all cycles of the graph, and with no cycle below the start value returns nothing and leaves the ratio unchanged; max_parametric gives the largest parameter without negative cycle for decreasing linear weights. The result does not depend on the initial potentials, and exact number types give exact results.",
 I, "all finite directed multigraphs, costs, positive times, start values and initial potentials, exact and floating arithmetic",
 "Three fixed graphs are tested.",
 [HI+"netoptim/min_cycle_ratio.hpp", HI+"netoptim/parametric.hpp"],
 [("parametric iteration", HI+"netoptim/parametric.hpp"), ("ratio and weights", HI+"netoptim/min_cycle_ratio.hpp")], ["returned cycle", "r_opt", "dist"])
prop("C19", "Network oracles cut validly and their optimizations are exact",
 "The network oracle accepts x exactly when the parametrised weights admit no negative cycle, and otherwise returns minus the weight of one negative cycle and its gradient. The optimal-scaling and cycle-ratio oracles built on it never cut off a feasible better point, improve their target only at feasible points to that point's objective value, and drive the cutting-plane method to the true optimum.",
 H, "all finite directed graphs, costs, times, points, targets and query sequences",
 "One scaling instance is tested; the cycle-ratio oracle is not.",
 [HI+"ellcpp/oracles/network_oracle.hpp", HI+"ellcpp/oracles/optscaling_oracle.hpp", HI+"ellcpp/oracles/cycle_ratio_oracle.hpp"],
 [("negative-cycle cut", HI+"ellcpp/oracles/network_oracle.hpp"), ("objective cut", HI+"ellcpp/oracles/optscaling_oracle.hpp, cycle_ratio_oracle.hpp")], ["oracle operator()"])
prop("C20", "Fraction arithmetic and ordering are those of the rationals",
 "Every arithmetic operator, compound assignment, mixed integer operation, negation, absolute value, reciprocal and comparison of Fraction agrees with exact rational arithmetic as long as the integer type does not overflow, and results are in lowest terms with a positive denominator. gcd and lcm are the non-negative greatest common divisor and least common multiple for int, long, long long and unsigned arguments.",
 H, "all numerators, denominators of either sign, expressions, and integer types",
 "Fractions are only used indirectly, with positive small values.",
 [HI+"py2cpp/fractions.hpp"],
 [("normalization and operators", HI+"py2cpp/fractions.hpp")], ["Fraction operators"])
prop("C21", "CSD conversions are canonical, accurate and round-trip",
 "The CSD string of a number has no two adjacent nonzero digits, only the digits + - 0 and at most one radix point, the requested number of fractional places (zero itself is \"0\"), and decodes to within (2/3)*2^-places of the number (exactly, when representable in that many places). The fixed-nonzeros conversion terminates with at most the requested number of nonzero digits, decodes to the number when that many suffice and otherwise to the same leading digits, and decoding any digit string gives its positional value.",
 I, "all doubles whose digits stay clear of overflow and underflow (2^-900..2^900), numbers of places >= 0, numbers of nonzero digits, digit strings whose value a double represents",
 "Three hand-picked values are tested.",
 [L+"csd.cpp"], [("digit generation and decoding", L+"csd.cpp")], ["to_csd", "to_csdfixed", "to_decimal"])
prop("C22", "Covariance estimation returns admissible near-optimal fits",
 "For a positive-definite sample covariance and at least two basis functions the fits succeed, and when success is reported, the least-squares (resp. maximum-likelihood) estimate gives a positive-definite combination of the distance-polynomial basis whose spectral error (resp. negative log-likelihood) is no worse than nearby admissible fits and comparable to the true optimum; their oracles accept, evaluate and cut consistently with those objectives. The site grid, distance matrix and basis matrices are exactly the documented ones and repeated calls give identical results.",
 I, "all site sets, sample covariance matrices, basis sizes",
 "Two runs on one data set check sign and iteration range only.",
 [L+"lsq_corr_ell.cpp"],
 [("lsq/mle oracles and drivers", L+"lsq_corr_ell.cpp")], ["lsq_corr_poly2", "lsq_corr_poly", "mle_corr_poly", "create_2d_sites", "create_2d_isotropic"])
prop("C23", "No memory error or undefined behaviour on any valid use",
 "Driving every public component with valid inputs never reads or writes outside allocated memory, uses freed or uninitialized values, leaks, trips an internal assertion, or executes undefined behaviour.",
 H, "all workloads of the other properties, under address, undefined-behaviour and uninitialized-value instrumentation",
 "The test suite runs uninstrumented on a few inputs.",
 ["lib/src", "lib/include"], [("indexing, lifetimes of spans and references", "whole library")], ["sanitizer and valgrind reports"])
prop("C24", "Instances are independent, re-entrant and deterministic",
 "The result of any computation depends only on its own inputs: interleaving it with other computations, repeating it in one process, or running it in another thread with its own objects gives bit-identical results and no data race. Copies of search spaces and copyable oracles share no mutable state.",
 ["schedules", "histories"], "all interleavings and thread schedules of computations on disjoint objects (the seeded sample generator create_2d_isotropic excepted)",
 "Every test runs one computation at a time in one thread.",
 ["lib/src", "lib/include"], [("absence of hidden global or shared state", "whole library")], ["results of interleaved and concurrent runs", "thread sanitizer reports"])
prop("C25", "Ranges, sets, dictionaries and graph views mirror their contents",
 "range, enumerate, set and dict behave as the sequences and finite maps they stand for: iteration, size, emptiness, membership, indexing, lookup with default and copying all agree, and const access never inserts. The graph adaptor lists exactly the vertices, edges, neighbours and end points of the graph it wraps, and its null vertex is no vertex.",
 H, "all bounds, element sequences, operation sequences and graphs",
 "These helpers are only exercised implicitly.",
 [HI+"py2cpp/py2cpp.hpp", HI+"py2cpp/nx2bgl.hpp"], [("containers", HI+"py2cpp/py2cpp.hpp"), ("graph views", HI+"py2cpp/nx2bgl.hpp")], ["py::range, enumerate, set, dict", "xn::grAdaptor"])
prop("C26", "The native graph classes record exactly the edges added",
 "After any sequence of edge insertions the native directed graph reports exactly the inserted edges through successors, adjacency, edge enumeration, degrees and edge data (last value wins), and the undirected one reports each edge from both ends. Edge counts, membership and clear() follow suit, enumerations are repeatable, a moved graph is complete and independent of its source, and network algorithms give the same answers on it as on any other graph type.",
 H, "all node counts and edge insertion sequences",
 "No compiled test uses these classes.",
 [HI+"xnetwork/classes/graph.hpp", HI+"xnetwork/classes/digraphs.hpp"], [("add_edge, edges, successors", HI+"xnetwork/classes/digraphs.hpp")], ["xn::Graph", "xn::DiGraphS"])
prop("C27", "Posynomial values and gradients are those of log f(exp(y))",
 "For every monomial and posynomial, whatever sums, products, quotients and scalings built it, the evaluation functions return log f(exp(y)) and its exact gradient, a convex-combination of the exponent vectors.",
 I, "all exponents, positive coefficients, expressions and points",
 "No compiled test uses these classes.",
 [HI+"ellip/monomial.hpp", HI+"ellip/posynomial.hpp"], [("log-sum-exp evaluation", HI+"ellip/posynomial.hpp"), ("monomial algebra", HI+"ellip/monomial.hpp")], ["monomial", "posynomial"])
prop("C28", "The geometric-programming package's ellipsoid is cut exactly",
 "Each central or deep/shallow cut g'(x - xc) + beta <= 0 of the class ellipsoid in ellip/ leaves the smallest ellipsoid containing what the cut leaves of the old one, so no point satisfying all cuts is ever lost. A cut nothing satisfies is answered NOSOLUTION and one too shallow to shrink the ellipsoid NOEFFECT, both without changing it. The shape stays symmetric and positive definite.",
 H, "all dimensions from 2, starts, gradients, depths and units, over whole histories of cuts",
 "No compiled test uses this class.",
 [HI+"ellip/ellipsoid.hpp", HI+"ellip/ellipsoid.cpp"], [("updates", HI+"ellip/ellipsoid.cpp")], ["ellipsoid::update", "ellipsoid::x"])
prop("C29", "Geometric-programming loops and oracle answer truly",
 "ellipsoid_dc, ellipsoid_dc_discrete and ellipsoid_algo query the oracle at each centre at most max_it times, pass on its gradient with the right depth (0 for central cuts, the value for violated constraints, shifted to the discrete point where there is one), and stop when a cut is not accepted or the centre moves less than tol. They report the least feasible value and its point, FOUND or NOTFOUND accordingly, EXCEEDMAXITER when the limit was reached, and never cut off an optimum. The oracle of a geometric program calls a point feasible iff every constraint posynomial is at most 1 there, and answers with value and gradient of the objective or of a violated constraint, in logarithms.",
 H, "all oracles, cut answers, limits and tolerances; all geometric programs and points",
 "No compiled test uses these functions.",
 [HI+"ellip/ellipsoid.hpp", HI+"ellip/gp_solve.hpp", HI+"ellip/gp_solve.cpp", HI+"ellip/profitmaxprob.hpp"], [("loops", HI+"ellip/ellipsoid.hpp"), ("oracle", HI+"ellip/gp_solve.cpp")], ["ellipsoid_dc, ellipsoid_dc_discrete, ellipsoid_algo", "gp_base", "profit_max"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
