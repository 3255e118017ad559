"""What each check builds, runs and counts."""

# programs: harness units, the library sources they exercise, the properties
PROGRAMS = {
    "ell": dict(tus=["p_ell.cpp"], lib=["ell.cpp", "ell_stable.cpp"],
                props=["C01", "C02", "C03", "C04", "C05"]),
    "drv": dict(tus=["p_drv.cpp"], lib=["ell.cpp", "ell1d.cpp"],
                props=["C06", "C07", "C08", "C09", "C10", "C11"]),
    "lmi": dict(tus=["p_lmi.cpp"],
                lib=["ldlt_ext.cpp", "lmi_oracle.cpp", "lmi_old_oracle.cpp", "lmi0_oracle.cpp", "qmi_oracle.cpp"],
                props=["C12", "C13", "C14"]),
    "lowprof": dict(tus=["p_lowprof.cpp"], lib=["ell.cpp", "lowpass_oracle.cpp", "profit_oracle.cpp"],
                    props=["C15", "C16"]),
    "net": dict(tus=["p_net.cpp"], lib=["ell.cpp", "ell1d.cpp"], props=["C17", "C18", "C19"]),
    "frac": dict(tus=["p_frac.cpp"], lib=[], props=["C20"]),
    "csd": dict(tus=["p_csd.cpp"], lib=["csd.cpp"], props=["C21"]),
    "lsq": dict(tus=["p_lsq.cpp"], optional=["p_lsqo.cpp"],
                lib=["lsq_corr_ell.cpp", "ell.cpp", "ldlt_ext.cpp", "lmi_oracle.cpp", "lmi0_oracle.cpp", "qmi_oracle.cpp"],
                props=["C22"]),
    "pos": dict(tus=["p_pos.cpp"], lib=[], props=["C27"]),
    "leg": dict(tus=["p_leg.cpp"], lib=["../include/ellip/ellipsoid.cpp", "../include/ellip/gp_solve.cpp"], props=["C28", "C29"]),
    "cont": dict(tus=["p_cont.cpp"], lib=[], props=["C25"]),
    "graph": dict(tus=["p_graph.cpp"], lib=[], props=["C26"]),
    "conc": dict(tus=["p_conc.cpp"],
                 lib=["ell.cpp", "ell_stable.cpp", "ell1d.cpp", "ldlt_ext.cpp", "lmi_oracle.cpp", "lmi_old_oracle.cpp",
                      "lmi0_oracle.cpp", "qmi_oracle.cpp", "lowpass_oracle.cpp", "profit_oracle.cpp",
                      "lsq_corr_ell.cpp", "csd.cpp", "../include/ellip/ellipsoid.cpp", "../include/ellip/gp_solve.cpp"],
                 props=["C24"]),
}
ALL_TUS = sorted({t for p in PROGRAMS.values() for t in p["tus"]})


def plan(k=1, procs=4, san_procs=3, deep=15.0):
    fast, san = k, 0.25 * k
    return {
        "quick": [dict(variant="fast", scale=fast, procs=procs),
                  dict(variant="san", scale=san, procs=san_procs)],
        "thorough": [dict(variant="fast", scale=fast * deep, procs=8),
                     dict(variant="san", scale=san * deep, procs=8)],
    }


CHECKS = {
    "C01": dict(programs=["ell"], plan=plan(4),
                rule="seeded histories of cuts (central, deep, shallow, parallel, degenerate) on ell; a case is "
                     "distinct by the hash of its start and its sequence of tau^2 values; every step is observed "
                     "from outside and random points of the cut ellipsoid are tested"),
    "C02": dict(programs=["ell"], plan=plan(6),
                rule="seeded histories of cuts; after each accepted cut centre and shape are compared with the "
                     "closed-form minimum-volume ellipsoid in extended precision (formula self-checked)"),
    "C03": dict(programs=["ell"], plan=plan(6),
                rule="seeded histories rich in empty, ineffective and crossed cuts on ell and ell_stable; verdicts "
                     "predicted away from rounding ties, rejected cuts must leave the space bit-identical"),
    "C04": dict(programs=["ell"], plan=plan(3),
                rule="seeded constructions, histories, paired spaces with different options, and copies"),
    "C05": dict(programs=["ell"], plan=plan(6),
                rule="seeded histories on ell_stable; each step compared with the ordinary space's step on the "
                     "represented ellipsoid"),
    "C06": dict(programs=["drv"], plan=plan(16),
                rule="seeded intervals and cut histories; the interval is read back through a copy after each cut"),
    "C07": dict(programs=["drv"], plan=plan(12),
                rule="scripted oracle/space traces judged event by event (distinct by script), plus random "
                     "polytopes with an inscribed ball, gap problems and 1-D problems solved with the real spaces"),
    "C08": dict(programs=["drv"], plan=plan(10),
                rule="scripted oracle/space traces judged event by event (distinct by script), plus random convex "
                     "programs with known optimum"),
    "C09": dict(programs=["drv"], plan=plan(2),
                rule="scripted oracle/space traces with retries judged event by event (distinct by script), plus "
                     "integer quadratic problems checked by enumeration"),
    "C10": dict(programs=["drv"], plan=plan(24),
                rule="intervals, thresholds, tolerances and limits over int/long/unsigned/double; distinct by the "
                     "sequence of answers"),
    "C11": dict(programs=["drv"], plan=plan(12),
                rule="scripted target sequences judged event by event, plus a real bisection with known threshold"),
    "C12": dict(programs=["lmi"], plan=plan(3),
                rule="sequences of symmetric matrices on one object: integer LDL^T products (exact arithmetic) and "
                     "random floats with pivots away from ties; distinct by the matrices"),
    "C13": dict(programs=["lmi"], plan=plan(8),
                rule="query histories on random LMIs; the certificate v v' is read out through unit matrices with "
                     "zero weight; distinct by problem and verdicts"),
    "C14": dict(programs=["lmi"], plan=plan(4),
                rule="query/target histories on random n x m quadratic matrix inequalities; the certificate is read "
                     "out through unit matrices with zero weight"),
    "C15": dict(programs=["lowprof"], plan=plan(),
                rule="query histories on random and cosine filter problems, single-violation points on the boundary, "
                     "and solver runs; each answer judged against all constraints in extended precision"),
    "C16": dict(programs=["lowprof"], plan=plan(8),
                rule="random profit problems, query points and targets; value, gradient, target recomputed in "
                     "extended precision; solver runs against the closed-form optimum"),
    "C17": dict(programs=["net"], plan=plan(16),
                rule="random directed multigraphs (rings, parallel edges, self-loops, components), weights close to and "
                     "across feasibility, potentials and reuse; verdict by exact Bellman-Ford, every returned list walked; "
                     "distinct by graph and verdicts"),
    "C18": dict(programs=["net"], plan=plan(5),
                rule="random multigraphs whose cycles all have positive time, start values above/at/below the optimum, "
                     "random potentials; optimum by enumeration of all cycles, exactly for Fraction"),
    "C19": dict(programs=["net"], plan=plan(6),
                rule="query histories of the network oracle (the cycle is read out through unit-gradient coordinates), the "
                     "scaling and the cycle-ratio oracle; feasibility and optimum by cycle enumeration; solver runs"),
    "C20": dict(programs=["frac"], plan=plan(1.5),
                rule="random expression chains over Fraction<int>, <long>, <long long> (every operator, aliased operands, "
                     "negative denominators, values up to the overflow bound), almost equal pairs, and gcd/lcm over five "
                     "integer types; each result compared with an exact 128-bit rational; distinct by the operands"),
    "C21": dict(programs=["csd"], plan=plan(8),
                rule="integers, dyadic sums, thirds and powers of two with their neighbours, random magnitudes "
                     "1e-250..1e250, places 0..200, nonzero limits 0..60; strings judged with exact big integers "
                     "and the unique canonical form; random digit strings decoded; distinct by input"),
    "C22": dict(programs=["lsq"], plan=plan(),
                rule="random site sets and sample covariances; every fit judged for admissibility, against an "
                     "independent ellipsoid solver and against 40 nearby admissible fits; query histories of both "
                     "oracles judged against sampled admissible points and the analytic likelihood; distinct by fit"),
    "C23": dict(programs=list(PROGRAMS), memory_only=True,
                technique="AddressSanitizer, UndefinedBehaviorSanitizer, library assertions and valgrind memcheck (with leak "
                          "check) over the workloads of every other check",
                plan={"quick": [dict(variant="san", scale=0.1, procs=1), dict(variant="plain", scale=0.004, procs=1)],
                      "thorough": [dict(variant="san", scale=2.0, procs=4), dict(variant="plain", scale=0.05, procs=2)]},
                rule="the workloads of all the other checks, run under AddressSanitizer + UndefinedBehaviorSanitizer "
                     "(with library assertions) and under valgrind memcheck with a leak check"),
    "C24": dict(programs=["conc"],
                technique="differential runtime monitoring: bit-exact digests of repeated, interleaved, re-entrant, copied and "
                          "threaded executions, plus ThreadSanitizer",
                plan={"quick": [dict(variant="fast", scale=1.0, procs=3), dict(variant="tsan", scale=0.15, procs=4)],
                      "thorough": [dict(variant="fast", scale=20.0, procs=8), dict(variant="tsan", scale=4.0, procs=6)]},
                rule="25 kinds of jobs (search spaces, drivers, oracles, networks, containers, graphs, conversions, algebra, fits ...) whose results are "
                     "hashed bit by bit: repeated after other jobs, stepped in random interleavings and inside each other's "
                     "callbacks, copied half way, and run in up to 6 threads (also under ThreadSanitizer); distinct by digest"),
    "C25": dict(programs=["cont"], plan=plan(3),
                rule="operation histories on ranges, enumerations, sets, dictionaries and wrapped boost graphs run "
                     "against a reference container; distinct by the history"),
    "C26": dict(programs=["graph"], plan=plan(2),
                rule="histories of insertions and clears on the native directed and undirected graphs run against a "
                     "reference edge map; every enumeration read repeatedly; distinct by the history"),
    "C27": dict(programs=["pos"], plan=plan(3),
                rule="random expressions over every constructor and operator (aliased operands included), evaluated at "
                     "random points within exp's range by every evaluation function and compared with a term list in "
                     "extended precision; distinct by value and point"),
    "C28": dict(programs=["leg"], plan=plan(12),
                rule="seeded histories of central, deep, shallow, empty and ineffective cuts on ellip/ellipsoid, its shape "
                     "read out by central cuts of copies; each step compared with the closed-form smallest ellipsoid; "
                     "distinct by start and centres"),
    "C29": dict(programs=["leg"], plan=plan(6),
                rule="scripted oracles and regions driven through the three loops and judged event by event, random "
                     "geometric programs queried, and profit, quadratic and integer problems with known optimum solved "
                     "with the real ellipsoid; distinct by script or problem"),
}

NOT_APPLICABLE = {}
