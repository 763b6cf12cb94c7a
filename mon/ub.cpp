// C25: problems with a separate upper bounding objective.
#include "solve.hpp"
#include "BonOsiTMINLPInterface.hpp"
using namespace mon;
using namespace Bonmin;
namespace {
void caseUb(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  Rng r(mix(mix(seed, 25), k));
  GenOpts g;
  g.maxInt = 4, g.maxCont = 3, g.maxCons = 4, g.domainCap = 60, g.pNoInt = 0.04;
  Model M;
  Ref R;
  if (!genWithRef(seed, k + 250000, g, M, R)) { ev_obs("gen_inconclusive"); return; }
  M.hasUB = true;
  int kind = r.i(0, 3);
  if (kind <= 1) M.fub = M.f;
  if (kind == 1) M.fub.c0 += r.nice(0, 5);
  if (kind == 2) M.fub.c0 = r.nice(-5, 5);
  int nt = kind == 0 ? 0 : r.i(1, 3);
  for (int t = 0; t < nt; t++) {
    Term T;
    T.c = r.nice(0.25, 2) * (kind >= 2 && r.p(0.4) ? -1 : 1), T.phi = r.p(0.7) ? SQ : HYP, T.b = r.nice(-2, 2);
    T.idx.push_back(r.i(0, M.n - 1)), T.a.push_back(r.nice(0.25, 1.5));
    M.fub.terms.push_back(T);
  }
  if (kind == 3) for (int i = 0; i < M.n; i++) if (r.p(0.5)) M.fub.lin.push_back({i, r.nice(-2, 2)});
  Config c = randConfig(r, r.i(0, 2), "B-BB");
  plainBranching(c, r);
  // the searches nested in these heuristics keep their own list of priced solutions
  if (!argl(a, "nested", 0))
    for (auto it = c.opts.begin(); it != c.opts.end();)
      it = it->first == "heuristic_RINS" || it->first == "fix_and_solve_heuristic" || it->first == "pump_for_minlp" || it->first == "dummy_pump_heuristic" || it->first == "heuristic_local_branching" ? c.opts.erase(it) : it + 1;
  c.set("time_limit", "10");
  if (r.p(0.25)) c.set("node_limit", std::to_string(r.i(1, 5)));
  Ipopt::SmartPtr<MTMINLP> t = new MTMINLP(M);
  if (r.p(0.15)) t->ubFailFrom = r.i(1, 6), t->ubFailTo = t->ubFailFrom + (r.p(0.3) ? 1 << 20 : r.i(0, 4));
  if (a.count("verbose")) ev_note(M.describe() + " cfg " + c.str() + fmt(" fail %ld-%ld", t->ubFailFrom, t->ubFailTo));
  std::string ctx = M.name + fmt(" ub kind %d%s", kind, t->ubFailFrom ? " failing" : "");
  Outcome o = runBonmin(GetRawPtr(t), c);
  ev_obs("ub_runs");
  if (o.threw) { ev_obs("ub_runs_stopped"); return; }
  ev_obs("ub_evaluations", t->ubCalls);
  ev_obs("ub_candidates", t->ubSeen.size());
  if (t->ubFailFrom && t->ubCalls >= t->ubFailFrom) ev_obs("ub_failures_injected");
  ev_state("ub_status", std::string(statusName(o.mipStatus)) + (t->ubSeen.empty() ? "/unseen" : "/seen") + fmt("/%d", kind));
  bool none = t->ubFailFrom && t->ubSeen.empty();
  if (!none) oracleSolution(M, o, *t, ctx, c);
  // every point the search priced was an integral solution of a node: the answer may not be worse
  double best = 1e300;
  size_t at = 0;
  for (size_t i = 0; i < t->ubSeen.size(); i++) {
    double v;
    const std::vector<double> &x = t->ubSeen[i].second;
    if (!M.violation(x.data(), v) || v > 1e-4 * 2 || M.intViol(x.data()) > 1.1e-6) ev_viol("ub-priced-infeasible", ctx + fmt(" point %d was priced, violation %.3g; ", (int)i, v) + c.str());
    if (t->ubSeen[i].first < best) best = t->ubSeen[i].first, at = i;
  }
  if (!t->ubSeen.empty()) {
    ev_obs("ub_best_checks");
    if (!o.hasX) ev_viol("ub-solution-lost", ctx + fmt(" %d solutions were priced, the best %.9g, none is returned (%s); ", (int)t->ubSeen.size(), best, statusName(o.mipStatus)) + c.str());
    else if (o.bestObj > best + 1e-9 * (1 + std::fabs(best))) ev_viol("ub-better-discarded", ctx + fmt(" solution %d of %d has value %.12g, the answer %.12g; ", (int)at, (int)t->ubSeen.size(), best, o.bestObj) + c.str());
    if (t->ubSeen.size() > 1) ev_obs("ub_several_candidates");
  } else if (o.hasX && !none) ev_viol("ub-never-priced", ctx + " a solution is returned but the alternate objective was never evaluated; " + c.str());
  oracleStatus(M, nullptr, o, *t, ctx, c);
  if (o.mipStatus == Bab::ProvenInfeasible && R.status == 0) ev_viol("infeasible-on-feasible", ctx + " " + c.str());
}
ModeReg r1("ub", caseUb);
}  // namespace
