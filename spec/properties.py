#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 spec/properties.py rewrites it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=hook)))
A = "src/Algorithms/"; O = A + "OaGenerators/"; I = "src/Interfaces/"; C = "src/CbcBonmin/"; B = A + "Branching/"; H = C + "Heuristics/"; Q = A + "QuadCuts/"

prop("C01", "An optimality or infeasibility claim on a convex MINLP is true",
     "When a solve of a convex mixed-integer nonlinear program (bounded integers, any mix of linear and nonlinear rows, "
     "any starting point) ends by claiming optimality, no feasible point has a better objective beyond the tolerances, "
     "and when it ends by claiming infeasibility no feasible point exists. This holds for every algorithm "
     "(branch-and-bound, outer approximation, Quesada-Grossmann, hybrid, ECP, iterated feasibility pump) and for every "
     "combination of search, branching, cut and heuristic options that does not ask for an inexact answer.",
     ["inputs", "configurations"], "all convex MINLPs x all algorithm/option combinations",
     "The only test solves one four-variable problem; pruning, cutting and fathoming errors show on particular problems and option combinations.",
     [C + "BonCbc.cpp", A + "BonBonminSetup.cpp", A + "BonBabSetupBase.cpp", O + "BonOACutGenerator2.cpp", O + "BonOaFeasChecker.cpp",
      O + "BonOaNlpOptim.cpp", O + "BonEcpCuts.cpp", O + "BonFpForMinlp.cpp", I + "BonOsiTMINLPInterface.cpp", B + "BonChooseVariable.cpp", C + "BonDiver.cpp"],
     [("branch-and-bound driver", C + "BonCbc.cpp Bab::branchAndBound"), ("cut generation and fathoming", O + "*"), ("status of NLP subproblems", I + "BonOsiTMINLPInterface.cpp")],
     observe=["Bab::mipStatus/bestObj after Bab::operator()", "TMINLP::finalize_solution"])
prop("C02", "Every solution handed to the user is feasible, integral and correctly priced",
     "Whenever a solve returns a solution (through the result object or the final callback, whatever the status, limits, "
     "heuristics or convexity of the problem), that point satisfies all bounds, all constraints and all special ordered "
     "sets within the tolerances and takes integral values where required. The objective value reported with it is the "
     "objective of that very point, and both channels report the same point.",
     ["inputs", "configurations"], "all MINLPs (convex or not) x algorithms x options x stopping reasons",
     "Solutions come from many places (NLP nodes, OA checks, heuristics, sub-MIPs); a test sees one of them on one problem.",
     [C + "BonCbc.cpp", C + "BonCbcNlpStrategy.cpp", O + "BonOaDecBase.cpp", H + "*", I + "BonAuxInfos.cpp"],
     [("solution retrieval at the end of the search", C + "BonCbc.cpp Bab::branchAndBound"), ("NLP solution passed to the tree", O + "BonOaDecBase.cpp post_nlp_solve")],
     observe=["Bab::bestSolution/bestObj", "TMINLP::finalize_solution"])
prop("C03", "The reported status, solution and bounds are mutually consistent and truthful",
     "Every solve that returns, whatever stops it (completion, node, iteration, solution or time limit, cutoff, "
     "allowable gap, error), calls the final callback with a status that agrees with the status of the result object and with the "
     "presence or absence of a solution. The reported best bound never exceeds the true optimum nor the incumbent, "
     "and a run that was stopped early never claims optimality or infeasibility that is false.",
     ["inputs", "configurations"], "all problems x algorithms x limits and gaps",
     "Status derivation depends on how the search stopped; the test only sees a completed search.",
     [C + "BonCbc.cpp", C + "BonCbc.hpp", I + "BonTMINLP.hpp"],
     [("status translation", C + "BonCbc.cpp Bab::branchAndBound (tail)")], observe=["Bab::mipStatus/bestBound/bestObj/bestSolution", "TMINLP::finalize_solution"])
prop("C04", "Relaxations and cuts never remove a feasible point of a convex problem",
     "The linear relaxation built from a convex problem and every row added to it during a solve by outer-approximation, ECP, Benders and "
     "feasibility-pump cut generation is satisfied by all points feasible for the problem "
     "(for cuts depending on an incumbent: by all that improve it). In addition, linearizing at a point that violates a "
     "convex constraint produces a row violated by that point.",
     ["inputs", "histories"], "all convex problems x linearization points x cut-generation histories",
     "A wrong coefficient or right-hand side removes only part of the feasible set and need not change the optimum of a sample problem.",
     [I + "BonOsiTMINLPInterface.cpp", Q + "BonOuterApprox.cpp", O + "BonEcpCuts.cpp", O + "BonOACutGenerator2.cpp", O + "BonOaFeasChecker.cpp", O + "BonOaNlpOptim.cpp", O + "BonFpForMinlp.cpp"],
     [("outer approximation", I + "BonOsiTMINLPInterface.cpp extractLinearRelaxation/getOuterApproximation"), ("Benders and feasibility cuts", I + "BonOsiTMINLPInterface.cpp getBendersCut/getFeasibilityOuterApproximation")],
     observe=["rows of the LP relaxation", "OsiCuts filled by each generator"])
prop("C05", "The NLP solver interface solves the current subproblem and tells how it ended",
     "After any history of bound changes, starting points, warm starts, hot starts and re-solves, solving through the NLP "
     "solver interface yields the optimum of the problem with the bounds currently set (on convex problems), with exactly "
     "one of the optimal / infeasible / abandoned / limit outcomes signalled, and primal solution, row activities, objective "
     "value and bounds read back consistent with each other. Reading results, hot starts and clones never alter the bounds.",
     ["histories", "inputs"], "all call histories on the solver interface x convex problems",
     "Branch-and-bound issues long, varied sequences of such calls; unit tests sample a short fixed one.",
     [I + "BonOsiTMINLPInterface.cpp", I + "BonTMINLP2TNLP.cpp", I + "Ipopt/BonIpoptSolver.cpp", I + "BonTNLPSolver.cpp"],
     [("bound bookkeeping", I + "BonOsiTMINLPInterface.cpp setColLower/..."), ("solve and status", I + "BonOsiTMINLPInterface.cpp solveAndCheckErrors/resolve")],
     observe=["OsiSolverInterface query methods"])
prop("C06", "The NLP view of a MINLP is a faithful image of the user's problem",
     "The continuous problem presented to the NLP solver has the user's functions, derivatives, sparsity structure, index style and "
     "constraint bounds, with the variable bounds and starting point most recently set, after any history of modifications, copies and solves; "
     "a variable that is fixed is presented with its fixed value. The final primal and dual solution is stored as delivered.",
     ["histories", "inputs"], "all modification histories x problems x index styles",
     "Needs arbitrary sequences of modifications and both index styles; the test uses none.",
     [I + "BonTMINLP2TNLP.cpp", I + "BonTMINLP2TNLP.hpp"],
     [("adapter", I + "BonTMINLP2TNLP.cpp")], observe=["TNLP callbacks of the adapter"])
prop("C07", "The feasibility-pump NLP has consistent derivatives and the right feasible set",
     "The auxiliary problem used by feasibility-pump and distance-minimising solves has as objective the requested "
     "distance to the given point over the selected variables combined with the original objective as asked (or the original objective alone when the distance is switched off), "
     "and its gradient, Jacobian and Hessian are the derivatives of its own objective and constraints. Its feasible set is "
     "the original one, intersected with the optional objective cutoff and local-branching constraints.",
     ["inputs", "configurations"], "all points, index styles, norms, weights, cutoff and local-branching settings",
     "An inconsistent derivative only slows or misleads Ipopt; a sampled test still converges.",
     [I + "BonTNLP2FPNLP.cpp", I + "BonTNLP2FPNLP.hpp"], [("distance problem", I + "BonTNLP2FPNLP.cpp")], observe=["TNLP callbacks of the wrapper"])
prop("C08", "A problem extended with linear and quadratic cuts stays exact and consistent",
     "After any sequence of adding and removing linear and quadratic cuts, the extended problem has exactly the original "
     "rows followed by the rows of the cuts currently present, with the values and bounds those cuts define, and its "
     "structure, gradients and Hessian are the derivatives of its own rows. Removing a cut undoes adding it.",
     ["histories", "inputs"], "all add/remove histories x cuts x problems",
     "Bookkeeping of shared sparsity positions breaks only for particular overlaps and orders of removal.",
     [Q + "BonTMINLP2Quad.cpp", Q + "BonQuadRow.cpp", Q + "BonTMatrix.cpp", Q + "BonQuadCut.cpp", Q + "BonArraysHelpers.hpp"],
     [("rows of quadratic cuts", Q + "BonQuadRow.cpp"), ("cut bookkeeping", Q + "BonTMINLP2Quad.cpp")], observe=["TNLP callbacks of the extended problem"])
prop("C09", "Reformulating a nonlinear objective as a constraint preserves the problem",
     "The linear-objective reformulation of a MINLP has one extra continuous variable and one extra constraint, and its "
     "value, derivative and bound callbacks agree with the original problem: the extra row is the original objective minus "
     "the extra variable, all other rows, types and bounds are unchanged, in the index style of the original.",
     ["inputs"], "all problems x points x index styles",
     "Every derivative entry and index style must be compared against the original problem.",
     [Q + "BonTMINLPLinObj.cpp"], [("reformulation", Q + "BonTMINLPLinObj.cpp")], observe=["TMINLP callbacks of the reformulation"])
prop("C10", "Options mean what was written: parsing, precedence, prefixes and validation",
     "A value given in option text or file (or programmatically) for a registered option is the value every component reads, for every "
     "registered option, with prefix lookup (specific prefix, then general) and documented defaults otherwise; later settings obey the no-clobber rule. "
     "Unknown names, out-of-range and malformed values are rejected with an error and never half-applied silently.",
     ["inputs", "configurations"], "all registered options x values x prefixes x ways of setting",
     "Several hundred options; tests set two or three.",
     [A + "BonBabSetupBase.cpp", A + "BonBonminSetup.cpp", I + "BonRegisteredOptions.cpp"],
     [("option reading", A + "BonBabSetupBase.cpp readOptionsFile/readOptionsString/gatherParametersValues"), ("registration", A + "BonBonminSetup.cpp registerAllOptions")], observe=["parameters of the setup object", "OptionsList queries"])
prop("C11", "Copies are equivalent to the original and independent of it",
     "A clone or copy of a solver interface, setup, cut generator, heuristic, branching chooser or branching/SOS/warm-start data behaves as "
     "the original did at the moment of copying, and no later operation on either one (including destruction) changes the other.",
     ["histories"], "all interleavings of operations on original and copies",
     "Aliasing shows only when one copy is changed or destroyed before the other is used.",
     [I + "BonOsiTMINLPInterface.cpp", I + "BonTMINLP2TNLP.cpp", A + "BonBabSetupBase.cpp", A + "BonBonminSetup.cpp", I + "BonTMINLP.cpp", H + "*", O + "*"],
     [("copy constructors, assignment and clone methods", "all classes listed")], observe=["public queries on both objects"])
prop("C12", "No memory error, undefined behaviour or internal abort on any valid use",
     "Solving any valid problem with any valid options, and tearing the objects down in any order, performs no out-of-bounds, "
     "use-after-free, double-free or uninitialised access, no undefined arithmetic, and does not end in a failed internal assertion, exit or crash.",
     ["inputs", "configurations", "histories"], "all problems x algorithms x options x object lifetimes",
     "A memory error in a rarely used option path is invisible without instrumentation and without driving that path.",
     ["src/"], [("ownership conventions", "whole tree")], observe=["sanitizer reports", "process end"])
prop("C13", "Limits and stopping criteria are honoured",
     "Node, solution, iteration and time limits stop the search no later than the granularity of one node allows, a limit of zero or one included, and "
     "the run then reports that it was stopped. With an allowable absolute or relative gap, the value returned is within that gap of the "
     "true optimum, and with a user cutoff no solution worse than the cutoff is returned and none better is missed.",
     ["configurations", "inputs"], "all limit/gap/cutoff values x problems x algorithms",
     "Limits interact with every algorithm and heuristic; tests set none.",
     [C + "BonCbc.cpp", A + "BonBabSetupBase.cpp", A + "BonSubMipSolver.cpp"], [("limits passed to the tree search", C + "BonCbc.cpp Bab::branchAndBound")], observe=["Bab::numNodes/bestObj/mipStatus"])
prop("C14", "A failing user callback never corrupts the answer",
     "When any user evaluation callback fails (reports an error) at any single call, at a range of calls or in a region of the space, the run "
     "ends normally or with a reported error: it never crashes, never returns an infeasible solution or a false optimality/infeasibility claim "
     "resulting from treating a failed evaluation as valid data, unless the user asked to fathom failed nodes.",
     ["fault_sequences", "inputs"], "every callback x every call index x failure patterns",
     "The number of failure points is the number of callback invocations of a run; tests inject none.",
     [I + "BonOsiTMINLPInterface.cpp", I + "Ipopt/BonIpoptSolver.cpp", C + "BonCbc.cpp", I + "BonTNLPSolver.cpp"],
     [("error propagation", I + "BonOsiTMINLPInterface.cpp solveAndCheckErrors"), ("failure policy", "nlp_failure_behavior option")], observe=["callback results", "final status"])
prop("C15", "A heuristic that reports a solution delivers a feasible, correctly priced one",
     "Each primal heuristic (dives, MIP dives, rounding, pumps, RINS, local branching, fix-and-solve), called at any node of a convex problem, either reports "
     "no solution or returns a point that is integral and feasible for the original problem with its true objective value and "
     "better than the incumbent; it leaves the bounds of the node's solver as it found them.",
     ["inputs", "histories"], "all problems x nodes x heuristics x incumbents",
     "Only the heuristic's return at many nodes can refute it; the tree search usually masks a bad candidate.",
     [H + "*"], [("heuristics", H + "*")], observe=["CbcHeuristic::solution calls"])
prop("C16", "Warm-start information survives storage and differencing",
     "A warm start taken from the NLP solver, stored as a difference against an earlier one and re-applied, equals the original, and restoring it "
     "makes the next solve start from exactly the stored primal and dual point; copies are independent.",
     ["inputs", "histories"], "all pairs of warm starts x chains of differences",
     "Differences are sparse; errors hit single components.",
     [I + "Ipopt/BonIpoptWarmStart.cpp", I + "Ipopt/BonIpoptInteriorWarmStarter.cpp"], [("diff/apply", I + "Ipopt/BonIpoptWarmStart.cpp")], observe=["warm start objects", "starting point callback"])
prop("C17", "The tree traversal strategies neither lose nor duplicate nodes",
     "Under every node-traversal strategy and node ordering, each node put on the search tree is later taken off, pruned by the cutoff or "
     "deleted exactly once, whatever the sequence of insertions, removals, re-sorts and cutoff cleanings; cleaning removes exactly the nodes "
     "at or above the cutoff, and the size and best bound reported agree with the nodes held.",
     ["histories"], "all operation sequences x strategies x parameters",
     "Losing one open node changes the answer only if it held the optimum.",
     [C + "BonDiver.cpp", C + "BonDiver.hpp"], [("diving trees", C + "BonDiver.cpp")], observe=["CbcTree interface"])
prop("C18", "Strong branching leaves the node as it was and fixes only what is proved",
     "Choosing a branching variable (by NLP, QP, LP or pseudo-cost strong branching, reliability or osi rules) leaves the bounds of the solver unchanged, "
     "picks an unsatisfied object, and declares the node infeasible or fixes a variable only if the corresponding branch contains no "
     "point better than the cutoff.",
     ["inputs", "configurations"], "all nodes x candidate lists x strong branching variants and settings",
     "A wrongly fixed variable cuts off part of the tree silently.",
     [B + "BonChooseVariable.cpp", B + "BonLpBranchingSolver.cpp", B + "BonQpBranchingSolver.cpp", I + "BonBranchingTQP.cpp", I + "BonStrongBranchingSolver.cpp"],
     [("strong branching", B + "BonChooseVariable.cpp doStrongBranching/chooseVariable")], observe=["OsiChooseVariable interface"])
prop("C19", "The user's callbacks are only ever called according to their contract",
     "In every run each callback receives the declared dimensions and non-zero counts, structure requests and value requests are distinct, "
     "no point contains NaN, row indices are in range, and the new-point flag is never false at a point different from the one of the previous evaluation.",
     ["histories", "configurations"], "all call sequences issued by all algorithms, heuristics and options",
     "A user caching intermediate results at a point gets silently wrong values; tests do not cache.",
     [I + "BonTMINLP2TNLP.cpp", I + "BonOsiTMINLPInterface.cpp", H + "*", I + "BonCutStrengthener.cpp"], [("evaluation call sites", I + "*, " + H + "*")], observe=["user callbacks"])
prop("C20", "Solves are reproducible and independent of what ran before in the process",
     "Solving the same problem with the same options and random seed gives the same status, solution, bound and node count, whether it is run first, again with the same or a new problem object, "
     "or after other solves (of other problems, with other options, failed or interrupted ones) in the same process.",
     ["histories"], "all sequences of solves in one process",
     "Leaked global or static state shows only in later solves.",
     [C + "BonCbc.cpp", I + "BonOsiTMINLPInterface.cpp", A + "BonBonminSetup.cpp"], [("absence of hidden global state", "whole tree")], observe=["results of repeated solves"])
prop("C21", "An interrupt at any moment stops the search cleanly with a truthful result",
     "If the process receives the interrupt signal at any moment of a solve, the solve returns normally with an interrupted or legitimately completed status, "
     "a reported solution is feasible and correctly priced, and no false optimality or infeasibility is claimed.",
     ["schedules", "inputs"], "every evaluation call as interrupt point x algorithms",
     "The interrupt can fall anywhere; tests never send one.",
     [C + "BonCbc.cpp", O + "BonOaDecBase.cpp", A + "BonSubMipSolver.cpp"], [("signal handler", C + "BonCbc.cpp"), ("abort flag", "BonminAbortAll")], observe=["result after SIGINT"])
prop("C22", "Special ordered sets, priorities and branching hints keep their meaning",
     "With special ordered sets declared, claims of optimality and infeasibility hold for the problem including the sets (unless they are disabled), and user "
     "priorities, preferred directions and pseudo-costs change only the order of the search, never its result, and reach the branching objects of the variables they were given for.",
     ["inputs", "configurations"], "all problems with sets and branching information x algorithms",
     "The test problem has neither sets nor priorities.",
     [C + "BonCbc.cpp", I + "BonOsiTMINLPInterface.cpp", A + "BonBabSetupBase.cpp"], [("object creation", C + "BonCbc.cpp Bab::branchAndBound"), ("priorities", A + "BonBabSetupBase.cpp setPriorities")], observe=["Cbc objects", "final result"])
prop("C23", "The MILP sub-solver wrapper returns correct solutions and valid bounds",
     "The wrapper used for the linear sub-problems of the decomposition algorithms returns, for every bounded MILP, limit and strategy, a solution that is feasible for the MILP or none, "
     "a lower bound that does not exceed the optimum of the MILP (when that is below the given cutoff), and the optimal flag only when the returned value is the optimum below the given cutoff.",
     ["inputs", "configurations"], "all MILPs x cutoffs x strategies x limits",
     "Master problems of the sample problem are solved at the root.",
     [A + "BonSubMipSolver.cpp"], [("sub-MIP wrapper", A + "BonSubMipSolver.cpp")], observe=["SubMipSolver interface"])
prop("C24", "Bounds, name and starting-point files are read back exactly",
     "Reading a bounds, names or starting-point file yields exactly the values, names and order written in it, for any file size and content, and tightens only "
     "the bounds listed; a missing or malformed file is reported and changes nothing.",
     ["inputs"], "all file contents and sizes",
     "Parsing errors depend on content and size.",
     [I + "BonBoundsReader.cpp", I + "BonColReader.cpp", I + "BonStartPointReader.cpp"], [("readers", I + "Bon*Reader.cpp")], observe=["values after reading"])
prop("C25", "With an alternate upper-bounding objective, incumbents are priced by it",
     "When the user supplies a separate upper-bounding objective, every incumbent and the final answer are valued by that function at the reported "
     "point, solutions remain feasible, and no better-valued solution found by the search is discarded in favour of a worse one.",
     ["inputs", "configurations"], "all problems x alternate objectives",
     "No test defines an alternate objective.",
     [I + "BonOsiTMINLPInterface.cpp", C + "BonCbcNlpStrategy.cpp", I + "BonAuxInfos.cpp"], [("alternate bounding", I + "BonOsiTMINLPInterface.cpp")], observe=["final objective"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
