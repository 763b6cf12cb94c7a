// Limits, gaps and cutoffs: how the search stops and what it then claims.
#include "solve.hpp"
using namespace Bonmin;
using namespace Ipopt;
namespace mon {
static void limitsCase(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  GenOpts g;
  g.pInfeasible = 0.05;
  Rng r(mix(mix(seed, 32), k));
  Config c = randConfig(r, r.p(0.5) ? 0 : 1, args(a, "algo", "").c_str());
  {  // criteria under test must not be set twice
    Opts o;
    for (auto &q : c.opts) if (q.first != "cutoff_decr") o.push_back(q);
    c.opts = o;
  }
  plainBranching(c, r);
  if (c.algo != "B-BB") g.pInfBounds = g.pFreeRow = 0; else g.pTwoSided = 0.12;
  g.pPure = 0.15;
  Model M; Ref R;
  if (!genWithRef(mix(seed, 31), k, g, M, R)) { ev_obs("gen_inconclusive"); return; }
  auto S = [&](const char *key, const std::string &v) { c.opts.push_back({key, v}); };
  int nodeLim = -1, solLim = -1, itLim = -1;
  double gap = 0, fgap = 0, cutoff = 1e100;
  int kind = r.i(0, 7);
  bool early = false;
  if (kind == 0 || kind == 6) { nodeLim = r.i(0, 6); S("node_limit", std::to_string(nodeLim)); }
  if (kind == 1 || kind == 6) { solLim = r.i(1, 2); S("solution_limit", std::to_string(solLim)); }
  if (kind == 2) { itLim = r.i(0, 40); S("iteration_limit", std::to_string(itLim)); }
  if (kind == 3) { gap = r.pick(std::vector<double>{0.5, 1, 3, 10, 0.01}); S("allowable_gap", fmt("%g", gap)); }
  if (kind == 4) { fgap = r.pick(std::vector<double>{0.01, 0.1, 0.3, 1}); S("allowable_fraction_gap", fmt("%g", fgap)); }
  if (kind == 5 && R.status == 0) {
    double d = r.pick(std::vector<double>{-1, -0.1, 0.05, 0.2, 1, 5});
    cutoff = R.obj + d * (1 + std::fabs(R.obj));
    S("cutoff", fmt("%.10g", cutoff));
  }
  if (kind == 7) { S("time_limit", r.p(0.5) ? "0.0001" : "0.05"); early = true; }
  SmartPtr<MTMINLP> t = new MTMINLP(M);
  Outcome o = runBonmin(GetRawPtr(t), c, nullptr);
  std::string ctx = M.name;
  static const char *kn[] = {"node", "solution", "iteration", "gap", "fgap", "cutoff", "node+sol", "time"};
  ev_obs("solves");
  ev_obs("algo:" + c.algo);
  ev_obs(std::string("criterion:") + kn[kind]);
  if (o.threw) { ev_note("EXC " + o.exc + (o.threwInSetup ? " (setup) " : " ") + "cfg: " + c.str()); }
  Ref R2 = R;
  bool cut = cutoff < 1e99;
  double tol = R.status == 0 ? R.tol() : 0;
  bool cutBelow = cut && R.status == 0 && cutoff < R.obj - tol, cutNear = cut && R.status == 0 && std::fabs(cutoff - R.obj) <= 2 * tol;
  double slackGap = std::max(gap, fgap * (std::fabs(R.obj) + (o.hasX ? std::fabs(o.bestObj) : 0) + 1e-10));
  oracleSolution(M, o, *t, ctx, c);
  if (gap > 0 || fgap > 0) {
    oracleStatus(M, nullptr, o, *t, ctx, c);
    if (!o.threw && R.status == 0) {
      if (o.mipStatus == Bab::FeasibleOptimal) {
        ev_obs("gap_claims");
        if (o.bestObj > R.obj + slackGap + tol) ev_viol("gap-exceeded", ctx + fmt(" returned %.9g, optimum %.9g, allowed gap %.3g, cfg: ", o.bestObj, R.obj, slackGap) + c.str());
        if (o.bestObj < R.obj - tol && !beats(M, o)) ev_viol("gap-superoptimal", ctx + fmt(" returned %.9g, optimum %.9g, cfg: ", o.bestObj, R.obj) + c.str());
      } else if (o.mipStatus == Bab::ProvenInfeasible) ev_viol("infeasible-on-feasible", ctx + " with a gap, cfg: " + c.str());
      if (!o.threw && o.mipStatus != Bab::ProvenInfeasible && o.bestBound > R.obj + slackGap + tol) ev_viol("gap-bound-above-optimum", ctx + fmt(" bound %.9g optimum %.9g cfg: ", o.bestBound, R.obj) + c.str());
    }
  } else if (cut) {
    oracleStatus(M, nullptr, o, *t, ctx, c);
    if (!o.threw && !cutNear && M.nInt() > 0) {  // without discrete variables there is no search
      ev_obs("cutoff_runs");
      if (cutBelow) {
        ev_obs("cutoff_below_optimum");
        if (o.hasX && o.bestObj > cutoff + tol) ev_viol("cutoff-ignored", ctx + fmt(" returned %.9g worse than the cutoff %.9g, cfg: ", o.bestObj, cutoff) + c.str());
        else if (o.hasX && !beats(M, o)) ev_viol("superoptimal", ctx + fmt(" returned %.9g below the optimum %.9g, cfg: ", o.bestObj, R.obj) + c.str());
      } else {
        ev_obs("cutoff_above_optimum");
        if (o.mipStatus == Bab::ProvenInfeasible) ev_viol("cutoff-lost-solutions", ctx + fmt(" claims infeasible, optimum %.9g is better than the cutoff %.9g, cfg: ", R.obj, cutoff) + c.str());
        else if (o.mipStatus == Bab::FeasibleOptimal && std::fabs(o.bestObj - R.obj) > tol) ev_viol("cutoff-suboptimal", ctx + fmt(" claims %.9g, optimum %.9g, cutoff %.9g, cfg: ", o.bestObj, R.obj, cutoff) + c.str());
        if (o.hasX && o.bestObj > cutoff + tol) ev_viol("cutoff-ignored", ctx + fmt(" returned %.9g worse than the cutoff %.9g, cfg: ", o.bestObj, cutoff) + c.str());
      }
    }
  } else {
    oracleStatus(M, &R, o, *t, ctx, c);
    oracleOptimal(M, R, o, *t, ctx, c);
    if (!o.threw) {
      bool claim = o.mipStatus == Bab::FeasibleOptimal || o.mipStatus == Bab::ProvenInfeasible;
      if (!claim) ev_obs(std::string("stopped_by:") + kn[kind]);
      if (nodeLim >= 0) {
        ev_obs("node_limit_checks");
        ev_state("nodes-over", fmt("%d", o.nodes - nodeLim > 0 ? o.nodes - nodeLim : 0));
        if (o.nodes > nodeLim + 2) ev_viol("node-limit-exceeded", ctx + fmt(" %d nodes with a limit of %d, cfg: ", o.nodes, nodeLim) + c.str());
      }
      if (itLim >= 0) { ev_obs("iteration_limit_checks"); ev_state("iters-over", o.iters > itLim ? "yes" : "no"); }
    }
  }
  (void)early; (void)solLim;
  t->flushContract();
  ev_obs("evaluations", t->totalCalls);
  if (a.count("verbose") || (a.count("sample") && k % 7 == 0)) ev_note(M.describe() + fmt(" ref %d %.9g => %s obj %.9g bound %.9g nodes %d iters %d cfg ", R.status, R.obj, o.threw ? o.exc.c_str() : statusName(o.mipStatus), o.bestObj, o.bestBound, o.nodes, o.iters) + c.str());
}
static ModeReg r1("limits", limitsCase);
}  // namespace mon
