// C14: user callbacks that fail at chosen calls. C21: interrupts at chosen moments.
#include "solve.hpp"
#include <csignal>
#include "BonOsiTMINLPInterface.hpp"
using namespace mon;
using namespace Bonmin;
namespace {
void caseFault(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  Rng r(mix(mix(seed, 14), k));
  GenOpts g;
  g.maxInt = 3, g.maxCont = 3, g.maxCons = 4, g.domainCap = 18, g.pInfBounds = g.pFreeRow = 0, g.pNoInt = 0;
  Config c = randConfig(r, r.i(0, 1), args(a, "algo", "").c_str());
  plainBranching(c, r);
  Model M;
  Ref R;
  if (!genWithRef(seed, k + 140000, g, M, R)) { ev_obs("gen_inconclusive"); return; }
  c.set("time_limit", "8");
  if (r.p(0.15)) c.set("num_resolve_at_node", "1");
  if (r.p(0.15)) c.set("num_retry_unsolved_random_point", "2");
  bool fathom = c.algo == "B-BB" && r.p(0.15);
  if (fathom) c.set("nlp_failure_behavior", "fathom");
  // how many calls are there?
  Ipopt::SmartPtr<MTMINLP> t0 = new MTMINLP(M);
  Outcome o0 = runBonmin(GetRawPtr(t0), c);
  if (o0.threw) { ev_obs("unfaulted_run_stopped"); return; }
  static const char *names[] = {"", "f", "grad", "g", "jac", "h", "any"};
  int tries = argl(a, "tries", 3);
  for (int z = 0; z < tries; z++) {
    FaultPlan P;
    P.kind = r.i(1, 6);
    bool region = r.p(0.2);
    long n = P.kind == FaultPlan::ANY ? t0->totalCalls : t0->calls[P.kind];
    if (n <= 0) continue;
    if (region) {
      P.atRegion = true, P.var = r.i(0, M.n - 1);
      double lo = std::max(M.xl[P.var], -5.), hi = std::min(M.xu[P.var], 5.), c0 = r.u(lo, hi), w = r.p(0.3) ? 1e-3 : r.u(0, 1) * (hi - lo);
      P.rlo = c0 - w / 2, P.rhi = c0 + w / 2;
    } else {
      P.from = r.p(0.25) ? 1 : 1 + (long)(r.u() * n), P.to = P.from;
      int len = r.i(0, 3);
      if (len == 1) P.to = P.from + r.i(1, 5);
      if (len == 2) P.to = P.from + (long)(r.u() * n);
      if (len == 3 && r.p(0.5)) P.to = 1L << 60;
    }
    Ipopt::SmartPtr<MTMINLP> t = new MTMINLP(M);
    t->fault = P;
    std::string ctx = M.name + fmt(" fault %s %ld..%ld of %ld%s", names[P.kind], P.from, P.to, n, region ? fmt(" region x%d [%g,%g]", P.var, P.rlo, P.rhi).c_str() : "");
    if (a.count("verbose")) ev_note(ctx + " " + M.describe() + " cfg " + c.str());
    Config c2 = c;
    if (region) c2.set("!max_iter", "100");  // the NLP solver creeps along the border of the region
    Outcome o = runBonmin(GetRawPtr(t), c2);
    ev_obs("fault_runs");
    if (!t->faultsInjected) { ev_obs("fault_not_reached"); continue; }
    ev_obs("faults_injected", t->faultsInjected);
    ev_obs(std::string("fault:") + names[P.kind]);
    if (region) ev_obs("fault:region");
    if (o.threw) {
      ev_obs(o.threwInSetup ? "error_reported_in_setup" : "error_reported");
      ev_state("reported", o.exc.substr(0, o.exc.find(':')));
      continue;
    }
    ev_obs("faulted_results");
    ev_state("faulted_status", std::string(statusName(o.mipStatus)) + (t->finals.empty() ? "/none" : std::string("/") + finalName(t->finals.back().status)));
    oracleSolution(M, o, *t, ctx, c);
    if (fathom) { ev_obs("fathomed_on_request"); continue; }
    if (region) continue;  // where the functions are not defined claims are relative to what can be evaluated
    oracleStatus(M, &R, o, *t, ctx, c);
    oracleOptimal(M, R, o, *t, ctx, c);
  }
}
ModeReg r1("fault", caseFault);

void caseInterrupt(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  Rng r(mix(mix(seed, 21), k));
  GenOpts g;
  g.maxInt = 4, g.maxCont = 3, g.maxCons = 4, g.domainCap = 40, g.pInfBounds = g.pFreeRow = 0, g.pNoInt = 0;
  Config c = randConfig(r, r.i(0, 1), args(a, "algo", "").c_str());
  plainBranching(c, r);
  // an undocumented heuristic that builds a whole second setup in the middle of the search: a failure there is raised
  for (auto it = c.opts.begin(); it != c.opts.end();) it = it->first == "dummy_pump_heuristic" ? c.opts.erase(it) : it + 1;
  Model M;
  Ref R;
  if (!genWithRef(seed, k + 210000, g, M, R)) { ev_obs("gen_inconclusive"); return; }
  c.set("time_limit", "8");
  Ipopt::SmartPtr<MTMINLP> t0 = new MTMINLP(M);
  Outcome o0 = runBonmin(GetRawPtr(t0), c);
  if (o0.threw) { ev_obs("uninterrupted_run_stopped"); return; }
  long n = t0->totalCalls;
  int tries = argl(a, "tries", 3);
  for (int z = 0; z < tries; z++) {
    Ipopt::SmartPtr<MTMINLP> t = new MTMINLP(M);
    long when = 1 + (long)(r.u() * n);
    bool hit = false, inRun = false;
    long after = 0;
    t->onCall = [&](long q) {
      if (hit) after++;
      if (inRun && !hit && q >= when) { hit = true; raise(SIGINT); }
    };
    Hooks h;
    h.beforeRun = [&](Bab &, BonminSetup &) { inRun = true; };
    std::string ctx = M.name + fmt(" interrupt at call %ld of %ld", when, n);
    Outcome o = runBonmin(GetRawPtr(t), c, &h);
    ev_obs("interrupt_runs");
    if (!hit) { ev_obs("interrupt_not_reached"); continue; }
    if (a.count("verbose")) ev_note(ctx + fmt(" evaluations after %ld ", after) + M.describe() + " cfg " + c.str());
    ev_obs("interrupts");
    ev_obs("algo:" + c.algo);
    ev_obs("evaluations_after_interrupt", after);
    ev_state("after", fmt("%d", after == 0 ? 0 : 1 << (int)std::log2((double)after)));
    std::string cx = ctx + fmt(" (%ld evaluations after it)", after);
    if (o.threw) { ev_viol("interrupt-raises", "the interrupted run ended in " + o.exc + "; " + cx + " " + c.str()); continue; }
    ev_state("interrupt_status", std::string(statusName(o.mipStatus)) + (t->finals.empty() ? "/none" : std::string("/") + finalName(t->finals.back().status)));
    if (n - when >= 400) ev_obs("promptness_checks");
    if (n - when >= 400 && after >= 0.9 * (n - when)) ev_viol("interrupt-ignored", fmt("the search went on: %ld evaluations were left, %ld more were made; ", n - when, after) + cx + " " + c.str());
    oracleSolution(M, o, *t, cx, c);
    oracleStatus(M, &R, o, *t, cx, c);
    oracleOptimal(M, R, o, *t, cx, c);
  }
}
ModeReg r2("interrupt", caseInterrupt);
}  // namespace
