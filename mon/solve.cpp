#include "solve.hpp"
#include "cutspy.hpp"
#include "BonTNLPSolver.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "CoinError.hpp"
#include "IpException.hpp"
using namespace Bonmin;
using namespace Ipopt;
namespace mon {

void applyOpts(BabSetupBase &s, const Config &c) {
  std::string t = std::string("sb yes\nprint_level ") + (getenv("MON_PL") ? getenv("MON_PL") : "0") + "\n";
  if (!getenv("MON_LOG")) t += "bonmin.bb_log_level 0\nbonmin.nlp_log_level 0\nbonmin.lp_log_level 0\n";
  t += "bonmin.algorithm " + c.algo + "\n";
  for (auto &o : c.opts) t += (o.first.find('.') == std::string::npos && o.first[0] != '!' ? "bonmin." + o.first : o.first[0] == '!' ? o.first.substr(1) : o.first) + " " + o.second + "\n";
  s.readOptionsString(t);
}
const char *statusName(int m) {
  switch (m) {
    case Bab::FeasibleOptimal: return "FeasibleOptimal";
    case Bab::ProvenInfeasible: return "ProvenInfeasible";
    case Bab::Feasible: return "Feasible";
    case Bab::UnboundedOrInfeasible: return "UnboundedOrInfeasible";
    case Bab::NoSolutionKnown: return "NoSolutionKnown";
  }
  return "?";
}
const char *finalName(int s) {
  switch (s) {
    case TMINLP::SUCCESS: return "SUCCESS";
    case TMINLP::INFEASIBLE: return "INFEASIBLE";
    case TMINLP::CONTINUOUS_UNBOUNDED: return "CONTINUOUS_UNBOUNDED";
    case TMINLP::LIMIT_EXCEEDED: return "LIMIT_EXCEEDED";
    case TMINLP::USER_INTERRUPT: return "USER_INTERRUPT";
    case TMINLP::MINLP_ERROR: return "MINLP_ERROR";
  }
  return "?";
}

std::string guarded(const std::function<void()> &fn) {
  try { fn(); return ""; }
  catch (TNLPSolver::UnsolvedError *E) { std::string s = std::string("UnsolvedError:") + E->errorName(); delete E; return s; }
  catch (TNLPSolver::UnsolvedError &E) { return std::string("UnsolvedError&:") + E.errorName(); }
  catch (OsiTMINLPInterface::SimpleError &E) { return "SimpleError:" + E.className() + "::" + E.methodName() + ":" + E.message(); }
  catch (CoinError &E) { return "CoinError:" + E.className() + "::" + E.methodName() + ":" + E.message(); }
  catch (IpoptException &E) { return "IpoptException:" + E.Message(); }
  catch (int e) { return fmt("int:%d", e); }
  catch (std::exception &e) { return std::string("std::exception:") + e.what(); }
  catch (...) { return "unknown exception"; }
}

Outcome runBonmin(MTMINLP *t, const Config &c, const Hooks *h) {
  Outcome o;
  SmartPtr<TMINLP> keep = t;
  BonminSetup b;
  Bab bb;
  std::string e = guarded([&] {
    b.initializeOptionsAndJournalist();
    applyOpts(b, c);
    b.initialize(keep);
    if (h && h->afterInit) h->afterInit(b);
  });
  if (!e.empty()) { o.threw = o.threwInSetup = true; o.exc = e; return o; }
  e = guarded([&] {
    if (h && h->beforeRun) h->beforeRun(bb, b);
    bb(b);
  });
  if (!e.empty()) { o.threw = true; o.exc = e; return o; }
  o.mipStatus = bb.mipStatus();
  o.bestObj = bb.bestObj();
  o.bestBound = bb.bestBound();
  o.contRelax = bb.continuousRelaxation();
  o.nodes = bb.numNodes();
  o.iters = bb.iterationCount();
  if (bb.bestSolution()) { o.hasX = true; o.x.assign(bb.bestSolution(), bb.bestSolution() + t->M.n); }
  if (h && h->afterRun) h->afterRun(bb, b);
  return o;
}

Config randConfig(Rng &r, int level, const char *force) {
  Config c;
  static const std::vector<std::string> algos = {"B-BB", "B-BB", "B-OA", "B-QG", "B-Hyb", "B-Hyb", "B-Ecp", "B-iFP"};
  c.algo = r.pick(algos);
  if (force && *force) c.algo = force;
  // B-Ecp without defaults for its three sub-options is B-QG like; the documented settings are applied automatically
  if (level == 0) return c;
  auto S = [&](const char *k, const std::string &v) { c.opts.push_back({k, v}); };
  auto yn = [&](const char *k, double p) { if (r.p(p)) S(k, "yes"); };
  double q = level == 1 ? 0.25 : 0.5;
  bool bbb = c.algo == "B-BB";
  typedef std::vector<std::string> V;
  if (r.p(q)) S("node_comparison", r.pick(V{"best-bound", "depth-first", "breadth-first", "dynamic", "best-guess"}));
  if (r.p(q)) S("tree_search_strategy", r.pick(V{"top-node", "dive", "probed-dive", "dfs-dive", "dfs-dive-dynamic"}));
  if (r.p(q)) {
    if (bbb) S("variable_selection", r.pick(V{"qp-strong-branching", "lp-strong-branching", "nlp-strong-branching", "osi-simple", "osi-strong", "random"}));
    else S("variable_selection", r.pick(V{"most-fractional", "strong-branching", "reliability-branching", "osi-simple", "osi-strong"}));
  }
  if (r.p(q)) S("number_strong_branch", std::to_string(r.i(bbb ? 1 : 0, 6)));
  if (r.p(q)) S("number_before_trust", std::to_string(r.i(0, 8)));
  if (r.p(q / 2)) S("max_backtracks_in_dive", std::to_string(r.i(0, 5)));
  if (r.p(q / 2)) S("max_dive_depth", std::to_string(r.i(0, 4)));
  if (r.p(q / 2)) S("stop_diving_on_cutoff", "yes");
  if (r.p(q / 2)) S("cutoff_decr", bbb ? r.pick(V{"1e-5", "1e-6", "1e-4", "0", "-0.1"}) : r.pick(V{"1e-5", "1e-6", "1e-4"}));
  if (bbb) {
    if (r.p(q)) S("warm_start", r.pick(V{"none", "optimum", "interior_point"}));
    if (level == 2) {
      if (r.p(q)) S("candidate_sort_criterion", r.pick(V{"best-ps-cost", "worst-ps-cost", "most-fractional", "least-fractional"}));
      if (r.p(q)) S("setup_pseudo_frac", r.pick(V{"0", "0.5", "1"}));
      if (r.p(q)) S("number_look_ahead", std::to_string(r.i(0, 4)));
      if (r.p(q)) S("min_number_strong_branch", std::to_string(r.i(0, 3)));
      if (r.p(q)) S("number_before_trust_list", std::to_string(r.i(-1, 3)));
      if (r.p(q)) S("trust_strong_branching_for_pseudo_cost", r.pick(V{"yes", "no"}));
      if (r.p(q)) S("lp_strong_warmstart_method", r.pick(V{"Basis", "Clone"}));
      if (r.p(q)) S("maxmin_crit_no_sol", r.pick(V{"0", "0.7", "1"}));
    }
    if (r.p(q / 2)) S("num_resolve_at_root", std::to_string(r.i(0, 3)));
    if (r.p(q / 2)) S("num_resolve_at_node", std::to_string(r.i(0, 2)));
    if (r.p(q / 3)) S("num_retry_unsolved_random_point", std::to_string(r.i(0, 3)));
    if (r.p(q / 3)) S("num_resolve_at_infeasibles", std::to_string(r.i(0, 2)));
    if (r.p(q / 3)) S("max_consecutive_infeasible", std::to_string(r.i(0, 3)));
    if (r.p(q / 3)) S("random_point_type", r.pick(V{"Jon", "Andreas"}));
    if (r.p(q / 3)) S("random_generator_seed", std::to_string(r.i(0, 1000)));
    if (r.p(q / 4)) S("resolve_on_small_infeasibility", r.pick(V{"0", "0.1", "1"}));
  } else {
    if (r.p(q)) S("filmint_ecp_cuts", std::to_string(r.i(0, 3)));
    if (r.p(q)) S("nlp_solve_frequency", std::to_string(r.i(0, 12)));
    if (r.p(q / 2)) S("nlp_solve_max_depth", std::to_string(r.i(0, 10)));
    if (r.p(q / 2)) S("nlp_solves_per_depth", r.pick(V{"0", "0.5", "1", "5", "100"}));
    if (r.p(q / 2)) S("ecp_max_rounds", std::to_string(r.i(0, 10)));
    for (const char *k : {"Gomory_cuts", "mir_cuts", "2mir_cuts", "cover_cuts", "clique_cuts", "flow_cover_cuts", "lift_and_project_cuts"})
      if (r.p(q / 2)) S(k, r.pick(V{"0", "-5", "1", "-99", "3"}));
    if (r.p(q)) S("oa_cuts_scope", r.pick(V{"local", "global"}));
    if (r.p(q)) S("add_only_violated_oa", r.pick(V{"yes", "no"}));
    if (r.p(q)) S("milp_strategy", r.pick(V{"find_good_sol", "solve_to_optimality"}));
    if (level == 2 && r.p(q / 4)) S("milp_solver", r.pick(V{"Cbc_D", "Cbc_Par"}));
    if (r.p(q)) S("feas_check_discard_policy", r.pick(V{"detect-cycles", "keep-all"}));
    if (r.p(q / 2)) S("oa_rhs_relax", r.pick(V{"1e-8", "1e-6", "0"}));
    if (r.p(q / 2)) S("oa_decomposition", r.pick(V{"yes", "no"}));
    if (r.p(q / 2)) S("num_cut_passes", std::to_string(r.i(0, 3)));
    if (r.p(q / 2)) S("num_cut_passes_at_root", std::to_string(r.i(0, 10)));
    if (r.p(q / 2)) S("pump_for_minlp", "yes");
    if (r.p(q / 3)) S("tiny_element", r.pick(V{"1e-8", "0", "1e-10"}));
  }
  yn("heuristic_RINS", q / 3);
  yn("heuristic_dive_fractional", q / 3);
  yn("heuristic_dive_vectorLength", q / 3);
  yn("heuristic_dive_MIP_fractional", q / 3);
  yn("heuristic_dive_MIP_vectorLength", q / 3);
  yn("heuristic_feasibility_pump", q / 3);
  yn("fix_and_solve_heuristic", q / 6);
  yn("dummy_pump_heuristic", q / 6);
  yn("MILP_rounding_heuristic", q / 3);
  if (r.p(q / 3)) S("feasibility_pump_objective_norm", r.pick(V{"1", "2"}));
  return c;
}

// Keep Cbc's own strong branching out of the linear-programming based algorithms (known finding KF-strong)
void plainBranching(Config &c, Rng &r) {
  if (c.algo == "B-BB") return;
  Opts o;
  for (auto &q : c.opts) if (q.first != "number_strong_branch" && q.first != "variable_selection" && q.first != "number_before_trust") o.push_back(q);
  o.push_back({"variable_selection", r.p(0.5) ? "most-fractional" : "osi-simple"});
  c.opts = o;
}

bool genWithRef(uint64_t seed, long k, const GenOpts &o, Model &M, Ref &R) {
  for (int t = 0; t < 6; t++) {
    M = genConvex(mix(mix(seed, (uint64_t)k + 1000003), t), o);
    R = reference(M);
    if (R.status != 2) return true;
  }
  return false;
}

static std::string xs(const std::vector<double> &x) {
  std::string s = "[";
  for (double v : x) s += fmt("%.9g ", v);
  return s + "]";
}
bool isLimit(const Outcome &o) { return o.mipStatus == Bab::Feasible || o.mipStatus == Bab::NoSolutionKnown; }

bool sosOk(const Model &M, const double *x, double tol) {
  for (auto &s : M.sos) {
    int nz = 0, first = -1, last = -1;
    for (size_t k = 0; k < s.idx.size(); k++) if (std::fabs(x[s.idx[k]]) > tol) { nz++; if (first < 0) first = k; last = k; }
    if (s.type == 1 && nz > 1) return false;
    if (s.type == 2 && nz > 0 && last - first > 1) return false;
  }
  return true;
}

bool oracleSolution(const Model &M, const Outcome &o, const MTMINLP &t, const std::string &ctx, const Config &c) {
  bool any = false;
  auto check = [&](const std::vector<double> &x, double obj, const char *which) {
    any = true;
    double v; int w;
    bool ok = M.violation(x.data(), v, &w);
    double ftol = 1e-5, tol = ftol;
    if (w >= M.n) { double s = std::max(std::fabs(M.gl[w - M.n]) < 1e19 ? std::fabs(M.gl[w - M.n]) : 0., std::fabs(M.gu[w - M.n]) < 1e19 ? std::fabs(M.gu[w - M.n]) : 0.); tol = ftol * (1 + s); }
    if (!ok || v > tol)
      ev_viol("solution-infeasible", ctx + fmt(" %s violation %.3g at %s%d x=", which, v, w < M.n ? "x" : "g", w < M.n ? w : w - M.n) + xs(x) + " cfg: " + c.str());
    double iv = M.intViol(x.data());
    if (iv > 1.1e-6) ev_viol("solution-fractional", ctx + fmt(" %s integrality violation %.3g x=", which, iv) + xs(x) + " cfg: " + c.str());
    if (!sosOk(M, x.data(), 1e-5)) ev_viol("solution-breaks-sos", ctx + " " + which + " x=" + xs(x) + " cfg: " + c.str());
    double f;
    if (M.hasUB) { M.fub.eval(x.data(), f); } else M.f.eval(x.data(), f);
    if (!(std::fabs(f - obj) <= 1e-5 * (1 + std::fabs(f))))
      ev_viol("objective-mismatch", ctx + fmt(" %s reported %.10g, f(x)=%.10g x=", which, obj, f) + xs(x) + " cfg: " + c.str());
    ev_obs("solutions_checked");
  };
  if (o.hasX) check(o.x, o.bestObj, "Bab::bestSolution");
  // heuristics that solve restricted problems deliver their own answers first: the last call is the result
  if (!t.finals.empty() && t.finals.back().hasX) {
    const FinalCall &f = t.finals.back();
    check(f.x, f.obj, "finalize_solution");
    if (o.hasX && !o.threw)
      for (int i = 0; i < M.n; i++) if (f.x[i] != o.x[i]) { ev_viol("finalize-differs", ctx + " finalize_solution and bestSolution differ"); break; }
  }
  return any;
}

// a feasible, correctly priced point below the reference disproves the reference, not the solver
bool beats(const Model &M, const Outcome &o) {
  double v, f;
  if (!o.hasX || !M.violation(o.x.data(), v) || v > 1e-6 || M.intViol(o.x.data()) > 1.1e-6 || !M.f.eval(o.x.data(), f)) return false;
  if (std::fabs(f - o.bestObj) > 1e-6 * (1 + std::fabs(f))) return false;
  ev_obs("reference_beaten");
  return true;
}

void oracleOptimal(const Model &M, const Ref &R, const Outcome &o, const MTMINLP &t, const std::string &ctx, const Config &c) {
  if (o.threw) return;
  if (R.status == 2) return;
  double tol = R.status == 0 ? R.tol() : 0;
  if (o.mipStatus == Bab::FeasibleOptimal) {
    ev_obs("optimality_claims");
    if (R.status == 1) ev_viol("optimal-on-infeasible", ctx + fmt(" claims optimum %.9g on an infeasible problem, cfg: ", o.bestObj) + c.str());
    else {
      if (o.bestObj > R.obj + tol) ev_viol("suboptimal", ctx + fmt(" claims optimum %.9g, a point with %.9g exists (tol %.2g), cfg: ", o.bestObj, R.obj, tol) + c.str());
      else if (o.bestObj < R.obj - tol && !beats(M, o)) ev_viol("superoptimal", ctx + fmt(" claims optimum %.9g below the true optimum %.9g, cfg: ", o.bestObj, R.obj) + c.str());
    }
  } else if (o.mipStatus == Bab::ProvenInfeasible) {
    ev_obs("infeasibility_claims");
    if (R.status == 0) ev_viol("infeasible-on-feasible", ctx + fmt(" claims infeasible, optimum is %.9g, cfg: ", R.obj) + c.str());
  } else if (o.mipStatus == Bab::UnboundedOrInfeasible) {
    ev_viol("unbounded-claim", ctx + " claims unbounded on a bounded problem, cfg: " + c.str());
  }
}

void oracleStatus(const Model &M, const Ref *R, const Outcome &o, const MTMINLP &t, const std::string &ctx, const Config &c) {
  if (o.threw) {
    ev_obs("runs_with_exception");
    return;
  }
  if (t.finals.empty()) ev_viol("finalize-count", ctx + fmt(" finalize_solution called %d times, cfg: ", (int)t.finals.size()) + c.str());
  if (t.finals.empty()) return;
  const FinalCall &f = t.finals.back();
  ev_state("status", fmt("%s/%s", statusName(o.mipStatus), finalName(f.status)));
  bool ok = false;
  switch (o.mipStatus) {
    case Bab::FeasibleOptimal: ok = f.status == TMINLP::SUCCESS && o.hasX && f.hasX; break;
    case Bab::ProvenInfeasible: ok = f.status == TMINLP::INFEASIBLE && !o.hasX && !f.hasX; break;
    case Bab::Feasible: ok = (f.status == TMINLP::LIMIT_EXCEEDED || f.status == TMINLP::USER_INTERRUPT || f.status == TMINLP::MINLP_ERROR) && o.hasX && f.hasX; break;
    case Bab::NoSolutionKnown: ok = (f.status == TMINLP::LIMIT_EXCEEDED || f.status == TMINLP::USER_INTERRUPT || f.status == TMINLP::MINLP_ERROR) && !o.hasX && !f.hasX; break;
    case Bab::UnboundedOrInfeasible: ok = f.status == TMINLP::CONTINUOUS_UNBOUNDED; break;
  }
  ev_obs("status_checks");
  if (!ok) ev_viol("status-inconsistent", ctx + fmt(" mipStatus=%s finalize=%s hasX=%d/%d cfg: ", statusName(o.mipStatus), finalName(f.status), (int)o.hasX, (int)f.hasX) + c.str());
  if (R && R->status == 0 && !M.hasUB) {
    double tol = R->tol();
    if (o.mipStatus != Bab::ProvenInfeasible) {
      ev_obs("bound_checks");
      if (!(o.bestBound <= R->obj + tol)) ev_viol("bound-above-optimum", ctx + fmt(" bestBound=%.9g optimum=%.9g status=%s cfg: ", o.bestBound, R->obj, statusName(o.mipStatus)) + c.str());
      if (o.hasX && o.bestBound > o.bestObj + tol) ev_viol("bound-above-incumbent", ctx + fmt(" bestBound=%.9g bestObj=%.9g cfg: ", o.bestBound, o.bestObj) + c.str());
    }
    if (o.hasX && o.bestObj < R->obj - tol && !beats(M, o)) ev_viol("incumbent-below-optimum", ctx + fmt(" bestObj=%.9g optimum=%.9g cfg: ", o.bestObj, R->obj) + c.str());
  }
}

// explore: everything at once, for triage
static void solveCase(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  GenOpts g;
  g.pSos = argl(a, "sos", 0) / 100.0;
  g.pBranchInfo = argl(a, "br", 0) / 100.0;
  g.pInfeasible = argl(a, "inf", 8) / 100.0;
  g.maxInt = argl(a, "maxint", 4);
  Model M; Ref R;
  Rng r(mix(mix(seed, 12), k));
  int level = argl(a, "level", -1) >= 0 ? (int)argl(a, "level", 0) : r.i(0, 2);
  Config c = randConfig(r, level, args(a, "algo", "").c_str());
  if (argl(a, "plain", 1)) plainBranching(c, r);
  // the linear master problems of the OA-type algorithms need bounded variables
  if (c.algo != "B-BB") g.pInfBounds = g.pFreeRow = 0; else g.pTwoSided = 0.12;
  if (argl(a, "nc", 0)) {  // nonconvex: no reference optimum, only the returned solutions and the status are judged
    M = genNonconvex(mix(mix(seed, 13), k), g);
    R.status = 2;
    if (r.p(0.4)) c.opts.push_back({"node_limit", std::to_string(r.i(0, 30))});
    if (r.p(0.2)) c.opts.push_back({"solution_limit", std::to_string(r.i(1, 3))});
  } else if (argl(a, "lat", 0)) {  // larger trees, optimum by enumeration
    bool feas;
    M = genLattice(mix(mix(seed, 14), k), (int)argl(a, "maxint", 8), R.obj, feas, R.x);
    R.status = feas ? 0 : 1;
    if (feas) R.feas.push_back(R.x);
  } else if (!genWithRef(mix(seed, 11), k, g, M, R)) { ev_obs("gen_inconclusive"); return; }
  if (a.count("only")) { Config d; d.algo = c.algo; std::string only = "," + args(a, "only", "") + ","; for (auto &o : c.opts) if (only.find("," + o.first + ",") != std::string::npos) d.opts.push_back(o); c = d; }
  if (a.count("without")) { Config d; d.algo = c.algo; std::string only = "," + args(a, "without", "") + ","; for (auto &o : c.opts) if (only.find("," + o.first + ",") == std::string::npos) d.opts.push_back(o); c = d; }
  if (a.count("set")) { std::stringstream ss(args(a, "set", "")); std::string kv; while (std::getline(ss, kv, ',')) { size_t p = kv.find(':'); c.opts.push_back({kv.substr(0, p), kv.substr(p + 1)}); } }
  if (a.count("verbose")) ev_note(M.describe() + " ref " + fmt("%d %.9g", R.status, R.obj) + " x=" + xs(R.x) + " cfg " + c.str());
  SmartPtr<MTMINLP> t = new MTMINLP(M);
  CutWatch w; w.M = &M; w.R = &R; w.ctx = M.name;
  Hooks h;
  if (a.count("spy")) h.afterInit = [&](BonminSetup &b) {
    if (R.status == 0 && (OsiSolverInterface *)b.nonlinearSolver() != b.continuousSolver()) { checkLp(*b.continuousSolver(), w, "initial", false); installSpies(b, w); } };
  Outcome o = runBonmin(GetRawPtr(t), c, &h);
  std::string ctx = M.name;
  ev_obs("solves");
  ev_obs("algo:" + c.algo);
  if (o.threw) { ev_note("EXC " + o.exc + (o.threwInSetup ? " (setup) " : " ") + "cfg: " + c.str()); }
  oracleStatus(M, &R, o, *t, ctx, c);
  oracleOptimal(M, R, o, *t, ctx, c);
  oracleSolution(M, o, *t, ctx, c);
  t->flushContract();
  ev_obs("evaluations", t->totalCalls);
  if (a.count("sample") && k % 7 == 0) ev_note(M.describe() + " cfg: " + c.str() + fmt(" => %s obj %.9g ref %.9g, %ld evaluations", o.threw ? o.exc.c_str() : statusName(o.mipStatus), o.bestObj, R.obj, t->totalCalls));
  if (a.count("verbose")) ev_note(fmt("outcome evals %ld %s obj %.9g bound %.9g nodes %d ", t->totalCalls, o.threw ? o.exc.c_str() : statusName(o.mipStatus), o.bestObj, o.bestBound, o.nodes) + xs(o.x));
}
static ModeReg r1("solve", solveCase);
}  // namespace mon
