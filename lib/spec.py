"""Which workloads decide which property, and which monitor verdicts count for it."""
import run


class R:
    def __init__(self, mode, quick, thorough, args=None, tag=None, keys=None, notkeys=(), fill="0xbe", per_case=40, chunk=6,
                 flavour="asan", prefix=None, quarantine=1, leaks=False, skipcrash=()):
        self.mode, self.q, self.t, self.args, self.tag = mode, quick, thorough, dict(args or {}), tag or mode
        self.keys, self.notkeys, self.fill, self.per_case, self.chunk = keys, tuple(notkeys), fill, per_case, chunk
        self.skipcrash = tuple(skipcrash)  # stops inside the (uninstrumented) libraries, counted as inconclusive
        self.flavour, self.prefix, self.quarantine, self.leaks = flavour, prefix, quarantine, leaks

    def n(self, tier):
        return self.t if tier == "thorough" else self.q

    def owns(self, key):
        if any(key.startswith(k) for k in self.notkeys):
            return False
        return self.keys is None or any(key.startswith(k) for k in self.keys)

    def env(self):
        return run.san_env(self.fill, self.leaks, self.quarantine)


def total(*keys):
    return lambda obs: sum(v for k, v in obs.items() if k in keys)


CONTRACT = ["callback-contract:"]
CLAIM = ["suboptimal", "superoptimal", "optimal-on", "infeasible-on", "unbounded"]
SOL = ["solution-", "objective-mismatch", "finalize-differs"]
STAT = ["status-inconsistent", "finalize-count", "bound-above", "incumbent-below"] + CLAIM
MODEL = ("random convex MINLPs (1-4 integers, 0-4 continuous, 0-6 rows built from 6 convex atoms, both index styles, ranges, "
         "equalities, constants, fixed and infeasible instances)")
REF = "reference optimum: enumeration of the integers with Ipopt called directly; instances where it is not certain are dropped"
SPEC = {}
SPEC["C01"] = dict(
    runs=[R("solve", 420, 6000, {}, "solve", keys=CLAIM),
          R("solve", 90, 2000, {"lat": 1, "maxint": 6}, "lattice", keys=CLAIM, per_case=90),
          R("solve", 0, 0, {"plain": 0}, "solvecbc", keys=CLAIM),
          R("solve", 0, 0, {"algo": "B-BB", "set": "variable_selection:strong-branching", "level": 0}, "bbcbc", keys=CLAIM)],
    must_observe=["optimality_claims", "infeasibility_claims", "algo:B-BB", "algo:B-OA", "algo:B-QG", "algo:B-Hyb", "algo:B-Ecp", "algo:B-iFP"],
    nontrivial=total("optimality_claims", "infeasibility_claims"),
    rule=MODEL + " x random algorithm and options; non-trivial: a run that ended with an optimality or infeasibility claim, compared with the reference",
    assumptions=[REF, "tolerance 2e-4*(1+|f|)+2e-5*sum of multipliers", "bounded columns and no free rows for the LP based algorithms"])
SPEC["C02"] = dict(
    runs=[R("solve", 300, 6000, {"nc": 1}, "nonconvex", keys=SOL),
          R("solve", 120, 3000, {}, "solve", keys=SOL),
          R("limits", 120, 3000, {}, "limits", keys=SOL)],
    must_observe=["solutions_checked"],
    nontrivial=total("solutions_checked"),
    rule="convex and nonconvex random MINLPs x algorithms x options x limits; non-trivial: a returned solution re-evaluated against the model",
    assumptions=["feasibility tolerance 1e-5*(1+|rhs|), integrality 1.1e-6, objective 1e-5 relative"])
SPEC["C03"] = dict(
    runs=[R("limits", 260, 6000, {}, "limits", keys=STAT + ["gap-bound"]),
          R("solve", 100, 3000, {}, "solve", keys=STAT),
          R("solve", 100, 3000, {"nc": 1}, "nonconvex", keys=["status-inconsistent", "finalize-count"])],
    must_observe=["status_checks", "bound_checks", "stopped_by:*"],
    nontrivial=total("status_checks", "bound_checks"),
    rule=MODEL + " x algorithms x node/solution/iteration/time limits, gaps and cutoffs; non-trivial: one status or bound comparison",
    assumptions=[REF])
SPEC["C04"] = dict(
    runs=[R("cuts", 200, 4000, {}, "cuts", keys=["relaxation-cuts", "cut-removes"]),
          R("relax", 350, 6000, {}, "relax", notkeys=CONTRACT, chunk=20)],
    must_observe=["cuts_checked", "lp_relaxations", "point_checks", "rows_checked", "separations", "objective_supports", "getOuterApproximation_other_point"],
    nontrivial=total("cuts_checked", "lp_rows", "rows_checked"),
    rule=MODEL + " x LP-based algorithms; a spy after every cut generator checks each generated row against all known feasible points (optima of all "
         "integer assignments and interior points); non-trivial: one row checked",
    assumptions=["rows by Cgl generators are only checked at points inside the node's bounds"])
SPEC["C12"] = dict(
    runs=[R("solve", 0, 0, {"algo": "B-BB", "set": "variable_selection:strong-branching", "level": 0}, "bbcbc", keys=[]),
          R("solve", 120, 3000, {}, "solve", keys=[], quarantine=64),
          R("solve", 80, 2000, {"nc": 1}, "nonconvex-fill41", keys=[], quarantine=64, fill="0x41"),
          R("cuts", 60, 2000, {}, "cuts-fill00", keys=[], quarantine=64, fill="0x00"),
          R("limits", 60, 2000, {}, "limits-fillff", keys=[], quarantine=64, fill="0xff"),
          R("relax", 100, 2000, {}, "relax-fillff", keys=[], quarantine=64, fill="0xff", chunk=20),
          R("view", 3000, 40000, {}, "view", keys=[], quarantine=64, fill="0xff", chunk=100),
          R("fpnlp", 3000, 40000, {}, "fpnlp", keys=[], quarantine=64, chunk=100),
          R("quadcuts", 3000, 40000, {}, "quadcuts", keys=[], quarantine=64, fill="0x41", chunk=100),
          R("linobj", 3000, 40000, {}, "linobj", keys=[], quarantine=64, fill="0xff", chunk=100),
          R("iface", 150, 3000, {}, "iface-fillff", keys=[], quarantine=64, fill="0xff", chunk=20),
          R("copy", 60, 1500, {}, "copy-fill41", keys=[], quarantine=64, fill="0x41", chunk=4, per_case=80),
          R("datacopy", 2000, 40000, {}, "datacopy", keys=[], quarantine=64, chunk=100),
          R("tree", 60, 1500, {}, "tree-fillff", keys=[], quarantine=64, fill="0xff", chunk=4, per_case=25),
          R("submip", 150, 3000, {}, "submip", keys=[], quarantine=64, fill="0xff", chunk=10),
          R("files", 1000, 20000, {}, "files", keys=[], quarantine=64, fill="0x41", chunk=50),
          R("hints", 120, 3000, {}, "hints-fillff", keys=[], quarantine=64, fill="0xff", per_case=25, chunk=4, skipcrash=["assert@OsiChooseVariable::setupList", "asan-SEGV@Bonmin::IpoptSolver::"]),
          R("fault", 60, 2000, {}, "fault-fillff", keys=[], quarantine=64, fill="0xff", chunk=4, per_case=60),
          R("interrupt", 60, 2000, {}, "interrupt-fill41", keys=[], quarantine=64, fill="0x41", chunk=4, per_case=60),
          R("repeat", 30, 1000, {"rounds": 1}, "repeat-fillff", keys=[], quarantine=64, fill="0xff", chunk=4, per_case=90),
          R("ub", 60, 2000, {}, "ub-fillff", keys=[], quarantine=64, fill="0xff", chunk=5, per_case=60),
          R("heur", 30, 2000, {}, "heur-fillff", keys=[], quarantine=64, fill="0xff", chunk=4, per_case=60),
          R("choose", 120, 4000, {"lat": 1}, "choose-fill41", keys=[], quarantine=64, fill="0x41", chunk=10),
          R("optstore", 300, 6000, {}, "optstore", keys=[], quarantine=64, chunk=50),
          R("optuse", 200, 4000, {}, "optuse", keys=[], quarantine=64, fill="0x41", chunk=20)],
    must_observe=["solves", "views_checked"],
    nontrivial=total("solves"),
    rule="every workload of the monitors under AddressSanitizer + UndefinedBehaviorSanitizer, fresh memory filled with four different patterns; non-trivial: one complete solve",
    assumptions=["external libraries (Cbc, Clp, Cgl, Ipopt) are not instrumented, but their heap use is"])
SPEC["C13"] = dict(
    runs=[R("limits", 400, 8000, {}, "limits", keys=["gap-", "cutoff-", "node-limit", "infeasible-on", "superoptimal"])],
    must_observe=["gap_claims", "cutoff_above_optimum", "cutoff_below_optimum", "node_limit_checks"],
    nontrivial=total("gap_claims", "cutoff_runs", "node_limit_checks"),
    rule=MODEL + " x algorithms x one or two stopping criteria; non-trivial: a run whose criterion was compared with the reference",
    assumptions=[REF, "time limits are only checked for what the run then reports"])
SPEC["C19"] = dict(
    runs=[R("solve", 200, 4000, {}, "solve", keys=CONTRACT),
          R("solve", 150, 3000, {"nc": 1}, "nonconvex", keys=CONTRACT)],
    must_observe=["evaluations"],
    nontrivial=total("evaluations"),
    rule="random MINLPs x algorithms x options with an instrumented user problem that checks each callback invocation; non-trivial: one callback invocation",
    assumptions=["quantified over callbacks reached by the compiled algorithms"])

VIEW = "random convex and nonconvex MINLPs (0-6 rows, both index styles, free, fixed and two-sided data)"
SPEC["C06"] = dict(
    runs=[R("view", 40000, 200000, {}, "view", chunk=300)],
    must_observe=["views_checked", "points_checked", "hessians_checked", "single_rows_checked", "dual_starts", "no_dual_start", "finals_checked", "view_clones"],
    nontrivial=total("views_checked"),
    rule=VIEW + " x histories of 14 bound, type, start, dual, solution, reset and copy operations on up to 4 copies; after each the whole view is read back "
         "and compared with an independent description; non-trivial: one complete comparison",
    assumptions=["Hessians are compared with central differences of exact gradients where two step sizes agree"])
SPEC["C07"] = dict(
    runs=[R("fpnlp", 40000, 200000, {}, "fpnlp", chunk=300)],
    must_observe=["views_checked", "points_checked", "hessians_checked", "finals_checked"],
    nontrivial=total("points_checked"),
    rule=VIEW + " x histories of objective, norm, weight, point, cutoff and local-branching settings; values, gradients, Jacobian and Hessian against "
         "an independent formula; non-trivial: one point compared",
    assumptions=["the 1-norm and the local-branching row count a coordinate as x or 1-x according to its reference value, as used with binary variables"])
SPEC["C08"] = dict(
    runs=[R("quadcuts", 25000, 150000, {}, "quadcuts", chunk=250)],
    must_observe=["cuts_added", "cuts_removed", "views_checked", "hessians_checked", "view_clones"],
    nontrivial=total("views_checked"),
    rule=VIEW + " x histories of 10 additions (4 entry points, linear and quadratic cuts, 3 storage types), removals, objective replacements, copies and "
         "solves; non-trivial: one complete comparison with the expected rows",
    assumptions=["the Hessian structure is requested again after the set of cuts changed, as a new optimization does"])
SPEC["C09"] = dict(
    runs=[R("linobj", 60000, 200000, {}, "linobj", chunk=400)],
    must_observe=["views_checked", "points_checked", "hessians_checked", "single_rows_checked", "scalings_checked", "finals_checked"],
    nontrivial=total("points_checked"),
    rule=VIEW + "; the reformulation read through its callbacks against the definition; non-trivial: one point compared",
    assumptions=["special ordered sets and branching information are passed through unchanged"])

IFACE = ("random convex MINLPs x histories of 5-14 operations (bounds, fixing everything, starting points, solves, re-solves, warm and hot starts, "
         "robustness/cost re-solves, distance problems, clones and deletions) on up to 4 interfaces stemming from each other; ")
SPEC["C05"] = dict(
    runs=[R("iface", 1000, 12000, {}, "iface", chunk=20, keys=["bounds-changed", "outcomes-overlap", "solution-outside", "objective-mismatch", "activity-mismatch",
                                                               "nlp-", "optimal-on", "infeasible-on", "distance-", "random-point"])],
    must_observe=["nlp_solves", "nlp_optima_compared", "nlp_infeasible", "hot_starts", "zero_dimension", "distances_compared", "cost_resolves", "robustness_resolves", "random_points"],
    nontrivial=total("nlp_solves", "distances_compared"),
    rule=IFACE + "non-trivial: a solve whose outcome, solution, activities, objective and bounds were compared with an independent solve",
    assumptions=["a solve by Ipopt called directly is the reference; a feasible point below it disproves the reference",
                 "tolerances: bounds 1e-7, rows 1e-4, optimum 2e-4*(1+|f|)+2e-5*sum of multipliers"])
SPEC["C16"] = dict(
    runs=[R("wstart", 20000, 200000, {}, "wstart", chunk=500),
          R("iface", 600, 8000, {}, "iface", chunk=20, keys=["warm-start"])],
    must_observe=["differences_applied", "warm_copies", "warm_checked", "warm_starts_compared", "restored_points", "through_difference"],
    nontrivial=total("differences_applied", "warm_starts_compared", "restored_points"),
    rule="histories of creating, copying, differencing, applying and destroying warm starts of random sizes; " + IFACE +
         "non-trivial: one warm start compared value by value with what was stored",
    assumptions=["the starting point is read from the NLP view right after the solve that used it"])
SPEC["C11"] = dict(
    runs=[R("copy", 300, 5000, {}, "copy", chunk=4, per_case=80),
          R("datacopy", 10000, 100000, {}, "datacopy", chunk=300),
          R("iface", 400, 6000, {}, "iface", chunk=20, keys=["clone-", "copy-dependent"])],
    must_observe=["setup_copies", "copies_solved", "originals_solved", "destroyed", "option_lists_compared", "data_copies", "clones", "copied:clone", "copied:clone-nlp", "copied:clone-prefix"],
    nontrivial=total("copies_solved", "originals_solved", "data_copies", "clones"),
    rule="setups copied in the three ways the library offers, solved, solved again and destroyed in any order, next to the original and to each other; "
         "problem data (sos, branching, perturbation) copied and destroyed in any order; " + IFACE +
         "non-trivial: one solve of a copy or an original compared with the reference, or one comparison of copied data",
    assumptions=[REF, "plain branching for the LP based algorithms (see C01)"])
SPEC["C17"] = dict(
    runs=[R("treeseq", 40000, 400000, {}, "treeseq", chunk=400),
          R("tree", 320, 8000, {}, "tree", chunk=4, notkeys=CONTRACT, per_case=25)],
    must_observe=["tree_pushes", "tree_taken", "tree_cleanings", "nodes_pruned", "nodes_kept", "strategy:dive", "strategy:probed-dive", "strategy:dfs-dive",
                  "strategy:dfs-dive-dynamic", "seq:dive", "seq:probed-dive", "seq:dfs-dive", "seq:dfs-dive-dynamic", "strategies_compared"],
    nontrivial=total("tree_checks"),
    rule="a watched copy of the tree in real searches (pure integer problems with dense sums of squares, random node ordering and diving parameters), and random "
         "histories of insertions, removals, re-sorts and mode changes that follow the protocol of branch and bound; after each operation the nodes held "
         "are compared with size, emptiness, best bound and the node handed out; non-trivial: one such comparison",
    assumptions=["two-way branching, as all branching objects of the library are", "size() of the class itself (Cbc 2.10 declares its own size() const)"])

SPEC["C10"] = dict(
    runs=[R("optstore", 10000, 150000, {}, "optstore", chunk=150),
          R("optuse", 2500, 40000, {}, "optuse", chunk=25)],
    must_observe=["defaults_checked", "values_read", "texts_read", "files_read", "bad_texts", "bad_sets", "locked_kept", "setups", "component_values", "heuristic_lists",
                  "cut_lists", "decompositions_checked", "runs_checked"],
    nontrivial=total("values_read", "defaults_checked", "component_values"),
    rule="histories of option texts, files and programmatic settings (valid, unknown, malformed, out of range; with and without prefixes) on all registered "
         "options against a model of the option store; defaults and ranges of the documented options against the documentation; parameters, heuristics, cut "
         "generators, decompositions and searches built from random option texts against the values given; non-trivial: one value compared",
    assumptions=["Ipopt's option list keeps numbers with 6 significant digits and values read from text cannot be overwritten by later ones",
                 "presets of an algorithm (B-OA, B-iFP, B-QG, B-Hyb) override the user's choice of the decomposition they are made of"])
SPEC["C23"] = dict(
    runs=[R("submip", 1100, 16000, {}, "submip", chunk=15)],
    must_observe=["milps_solved", "milp_solutions", "milp_optimal_claims", "milp_none_claims", "milp_stopped", "milp_bounds", "wrapper_copies", "problems_replaced"],
    nontrivial=total("milp_solutions", "milp_none_claims", "milp_bounds"),
    rule="random bounded MILPs (feasible, infeasible, equality and range rows) x milp_solver x strategies x cutoffs, node, iteration, time and solution limits x "
         "sequences of searches with added rows, changed problems and copied wrappers, compared with exhaustive enumeration; non-trivial: a solution, a "
         "claim that none exists, or a bound compared",
    assumptions=["reference: enumeration of the integers with Clp on the continuous rest"])
SPEC["C24"] = dict(
    runs=[R("files", 12000, 150000, {}, "files", chunk=150)],
    must_observe=["bounds_files", "bad_bounds_files", "bounds_applied", "names_files", "names_checked", "missing_names_files", "start_files", "bad_start_files",
                  "start_values", "round_trips"],
    nontrivial=total("bounds_applied", "names_checked", "start_values", "round_trips"),
    rule="bounds, names and starting-point files of random size and content, well-formed, truncated, malformed, empty and missing, read in random histories, and "
         "files written by the library read back; non-trivial: one bound, name or value compared",
    assumptions=["files are those of the compiled readers (bounds reader, names reader, starting point reader, files written for unsolved NLPs)"])
HKEYS = ["hint-"] + CLAIM + SOL + STAT
SPEC["C22"] = dict(
    runs=[R("hints", 900, 12000, {}, "hints", keys=HKEYS, per_case=25, chunk=4, skipcrash=["assert@OsiChooseVariable::setupList", "asan-SEGV@Bonmin::IpoptSolver::"]),
          R("hints", 500, 8000, {"cont": 1}, "hints-continuous", keys=HKEYS, per_case=25, chunk=4, skipcrash=["assert@OsiChooseVariable::setupList", "asan-SEGV@Bonmin::IpoptSolver::"]),
          R("hints", 0, 0, {"algo": "B-OA"}, "hintsoa", keys=HKEYS, per_case=25)],
    must_observe=["objects_checked", "sets_checked", "osi_setups", "cbc_searches", "runs_with_sets", "sets_disabled", "refusals", "optimality_claims", "infeasibility_claims", "solutions_checked"],
    nontrivial=total("objects_checked", "sets_checked", "hint_results"),
    rule="random convex MINLPs with 0-2 special ordered sets (types 1 and 2, overlapping), priorities, directions and pseudo-costs x B-BB/B-QG/B-Ecp/B-Hyb x branching rules; "
         "non-trivial: a branching object compared with the declaration, or a result compared with the enumerated reference (sets included)",
    assumptions=[REF, "B-OA and oa_decomposition with sets: known finding", "pumps refuse sets"])
SPEC["C14"] = dict(
    runs=[R("fault", 330, 8000, {}, "fault", keys=CLAIM + SOL + STAT, chunk=4, per_case=60),
          R("view", 4000, 40000, {}, "view", keys=["fault-ignored"], chunk=200),
          R("fpnlp", 4000, 40000, {}, "fpnlp", keys=["fault-ignored"], chunk=200),
          R("quadcuts", 4000, 40000, {}, "quadcuts", keys=["fault-ignored"], chunk=200),
          R("linobj", 4000, 40000, {}, "linobj", keys=["fault-ignored"], chunk=200)],
    must_observe=["faults_injected", "faulted_results", "error_reported", "error_reported_in_setup", "fault:f", "fault:grad", "fault:g", "fault:jac", "fault:h", "fault:region", "failures_propagated"],
    nontrivial=total("faulted_results", "error_reported", "error_reported_in_setup"),
    rule="random convex MINLPs x algorithms x options; three failure plans each (one callback kind or any, at one call, a range, from a call on, or in a region of the space); "
         "non-trivial: a run in which a callback really failed and whose end (error or result) was judged",
    assumptions=[REF, "claims are not judged for failures in a region (the problem is then only defined outside it) nor with nlp_failure_behavior=fathom"])
SPEC["C21"] = dict(
    runs=[R("interrupt", 420, 8000, {}, "interrupt", keys=CLAIM + SOL + STAT + ["interrupt-"], chunk=4, per_case=60)],
    must_observe=["interrupts", "promptness_checks", "solutions_checked", "algo:B-BB", "algo:B-OA", "algo:B-QG", "algo:B-Hyb", "algo:B-Ecp", "algo:B-iFP"],
    nontrivial=total("interrupts"),
    rule="random convex MINLPs x algorithms x options, SIGINT raised from inside a user evaluation at three random calls of the search each; non-trivial: a run that received the signal",
    assumptions=[REF, "the signal arrives during an evaluation (the moments in between are not hit)"])

SPEC["C20"] = dict(
    runs=[R("repeat", 240, 5000, {}, "repeat", keys=["repeat-"], chunk=4, per_case=90)],
    must_observe=["repeats", "repeats_same_object", "repeats_with_tree", "disturbed:other", "disturbed:failing", "disturbed:interrupted", "disturbed:bad-option", "disturbed:setup-only", "disturbed:limits"],
    nontrivial=total("repeats"),
    rule="random convex MINLPs x algorithms x options solved four times in one process, with zero to two other solves before each (other problems and options, failing evaluations, interrupts, rejected options, setups that are not run, tight limits), compared bit for bit: status, final callback, nodes, objective, bound, relaxation, point, iterations, evaluation counts; non-trivial: one repetition",
    assumptions=["random_generator_seed is set (otherwise the generator goes on where the previous solve left it)", "runs of more than 5 s are not compared: nested searches have time limits"])

SPEC["C25"] = dict(
    runs=[R("ub", 550, 10000, {}, "ub", keys=SOL + ["ub-", "infeasible-on", "status-inconsistent", "finalize-"], chunk=5, per_case=60),
          R("ub", 0, 0, {"nested": 1}, "ubnested", keys=SOL + ["ub-"], per_case=60)],
    must_observe=["ub_best_checks", "ub_several_candidates", "ub_failures_injected", "solutions_checked"],
    nontrivial=total("ub_best_checks"),
    rule="random convex MINLPs with a second objective (equal, shifted, raised or unrelated, at times failing) solved by NLP based branch and bound; every point the search prices is recorded; non-trivial: a run that priced at least one solution and whose answer was compared with the best of them",
    assumptions=["NLP based branch and bound only: the other algorithms announce that they ignore the second objective", "runs where every evaluation of the second objective fails are not judged", "heuristics that run nested searches are off (see the known finding)"])

SPEC["C15"] = dict(
    runs=[R("heur", 330, 8000, {}, "heur", keys=["heuristic-"], chunk=4, per_case=60)],
    must_observe=["heuristic_calls", "calls_in_tree", "bounds_compared", "solutions:DiveFractional", "solutions:DiveVectorLength", "solutions:DiveMIPFractional", "solutions:DiveMIPVectorLength",
                  "solutions:FPump", "solutions:Fix and Solve", "solutions:Pump for MINLP", "solutions:MILP Rounding", "solutions:nonlinear program", "calls:RINS"],
    nontrivial=total("heuristic_solutions"),
    rule="random convex MINLPs x algorithms x sets of heuristics; each heuristic of the setup is wrapped by one that compares the solver's bounds around the call, and the returned point and value with the model and the incumbent; some calls are repeated with a better incumbent; non-trivial: a call that reported a solution",
    assumptions=["feasibility tolerance 1e-5*(1+|rhs|), integrality 1.1e-6, value 1e-5 relative", "local branching and the dummy pump (undocumented, they stop in assertions) are left out"])

SPEC["C18"] = dict(
    runs=[R("choose", 1400, 20000, {"lat": 1}, "lattice", keys=["choose-"], chunk=10, per_case=40),
          R("choose", 240, 6000, {}, "mixed", keys=["choose-"], chunk=4, per_case=60)],
    must_observe=["choices", "fixings", "forced_checked", "infeasible_nodes", "chosen_checked", "bounds_compared", "good_solutions",
                  "rule:nlp-strong-branching", "rule:qp-strong-branching", "rule:lp-strong-branching", "rule:osi-strong", "rule:osi-simple"],
    nontrivial=total("choices"),
    rule="random convex and lattice MINLPs x selection rules x strong branching settings; the chooser of the setup is replaced by a subclass that compares the bounds around each call, the chosen object with the node's solution, and fixings and infeasibility claims with the known solutions inside the node; non-trivial: one call of chooseVariable",
    assumptions=["false fixings are seen when they cut off an optimum of one assignment of the integers (all assignments for the mixed problems, the best one for the lattice problems)",
                 "Cbc never calls the random rule's choice (its list is empty), so that rule is only seen through its results"])
