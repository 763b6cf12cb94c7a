// C20: the same solve repeated after other solves in the process.
#include "solve.hpp"
#include <csignal>
#include <cstring>
#include "CoinTime.hpp"
#include "BonOsiTMINLPInterface.hpp"
using namespace mon;
using namespace Bonmin;
namespace {
struct Trace {
  Outcome o;
  long calls[7];
  std::string fin;
  double cpu = 0;
};
Trace solveOnce(const Model &M, const Config &c, MTMINLP *reuse = nullptr) {
  Trace T;
  Ipopt::SmartPtr<MTMINLP> t = reuse ? reuse : new MTMINLP(M);
  long base[7];
  for (int i = 0; i < 7; i++) base[i] = t->calls[i];
  T.cpu = -CoinCpuTime();
  T.o = runBonmin(GetRawPtr(t), c);
  T.cpu += CoinCpuTime();
  for (int i = 0; i < 7; i++) T.calls[i] = t->calls[i] - base[i];
  T.fin = t->finals.empty() ? "none" : finalName(t->finals.back().status);
  return T;
}
std::string differs(const Trace &a, const Trace &b) {
  if (a.o.threw != b.o.threw) return "outcome: " + (a.o.threw ? a.o.exc : "result") + " / " + (b.o.threw ? b.o.exc : "result");
  if (a.o.threw) return a.o.exc == b.o.exc ? "" : "error: " + a.o.exc + " / " + b.o.exc;
  if (a.o.mipStatus != b.o.mipStatus) return std::string("status: ") + statusName(a.o.mipStatus) + " / " + statusName(b.o.mipStatus);
  if (a.fin != b.fin) return "final callback: " + a.fin + " / " + b.fin;
  if (a.o.hasX != b.o.hasX) return fmt("solution: %d / %d", a.o.hasX, b.o.hasX);
  if (a.o.nodes != b.o.nodes) return fmt("nodes: %d / %d", a.o.nodes, b.o.nodes);
  auto ne = [](double x, double y) { return memcmp(&x, &y, sizeof x) != 0 && !(x == y); };
  if (ne(a.o.bestObj, b.o.bestObj)) return fmt("objective: %.17g / %.17g", a.o.bestObj, b.o.bestObj);
  if (ne(a.o.bestBound, b.o.bestBound)) return fmt("bound: %.17g / %.17g", a.o.bestBound, b.o.bestBound);
  if (ne(a.o.contRelax, b.o.contRelax)) return fmt("relaxation: %.17g / %.17g", a.o.contRelax, b.o.contRelax);
  for (size_t i = 0; i < a.o.x.size(); i++)
    if (ne(a.o.x[i], b.o.x[i])) return fmt("x[%d]: %.17g / %.17g", (int)i, a.o.x[i], b.o.x[i]);
  if (a.o.iters != b.o.iters) return fmt("iterations: %d / %d", a.o.iters, b.o.iters);
  for (int i = 0; i < 7; i++)
    if (a.calls[i] != b.calls[i]) return fmt("evaluations of kind %d: %ld / %ld", i, a.calls[i], b.calls[i]);
  return "";
}

void caseRepeat(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  Rng r(mix(mix(seed, 20), k));
  GenOpts g;
  g.maxInt = 4, g.maxCont = 3, g.maxCons = 4, g.domainCap = 60, g.pInfBounds = g.pFreeRow = 0;
  Config c = randConfig(r, r.i(0, 2), args(a, "algo", "").c_str());
  plainBranching(c, r);
  for (auto it = c.opts.begin(); it != c.opts.end();) it = it->first == "random_generator_seed" || it->first == "time_limit" ? c.opts.erase(it) : it + 1;
  c.set("random_generator_seed", std::to_string(r.i(0, 100)));
  if (r.p(0.2)) c.set("node_limit", std::to_string(r.i(1, 6)));
  if (r.p(0.15)) c.set("cutoff", fmt("%g", r.u(-20, 20)));
  if (r.p(0.15)) c.set("nlp_failure_behavior", "fathom");
  if (r.p(0.15)) c.set(c.algo == "B-BB" ? "num_resolve_at_root" : "num_cut_passes", "2");
  Model M;
  Ref R;
  if (!genWithRef(seed, k + 200000, g, M, R)) { ev_obs("gen_inconclusive"); return; }
  Ipopt::SmartPtr<MTMINLP> kept = new MTMINLP(M);
  Trace base = solveOnce(M, c, GetRawPtr(kept));
  if (a.count("verbose")) ev_note(M.describe() + " cfg " + c.str());
  std::string hist;
  int rounds = argl(a, "rounds", 3);
  for (int z = 0; z < rounds; z++) {
    int nd = r.i(0, 2);
    for (int d = 0; d < nd; d++) {
      int kind = r.i(0, 6);
      Config c2 = randConfig(r, r.i(0, 2), nullptr);
      plainBranching(c2, r);
      c2.set("time_limit", "3");
      GenOpts g2 = g;
      g2.domainCap = 20;
      Model M2 = r.p(0.4) ? M : Model();
      Ref R2;
      if (M2.n == 0 && !genWithRef(seed, r.i(0, 1 << 28), g2, M2, R2)) continue;
      static const char *nm[] = {"other", "other", "failing", "interrupted", "bad-option", "setup-only", "limits"};
      hist += std::string(hist.empty() ? "" : ", ") + nm[kind] + "(" + c2.algo + ")";
      ev_obs(std::string("disturbed:") + nm[kind]);
      Ipopt::SmartPtr<MTMINLP> t2 = new MTMINLP(M2);
      Hooks h;
      bool inRun = false;
      long when = 1 + (long)(r.u() * r.u() * 400);
      if (kind == 2) { t2->fault.kind = FaultPlan::ANY; t2->fault.from = when; t2->fault.to = 1L << 60; }
      if (kind == 3) {
        t2->onCall = [&](long q) { if (inRun && q >= when) { inRun = false; raise(SIGINT); } };
        h.beforeRun = [&](Bab &, BonminSetup &) { inRun = true; };
        h.afterRun = [&](Bab &, BonminSetup &) { inRun = false; };
      }
      if (kind == 4) c2.set("node_comparison", "no-such-comparison");
      if (kind == 6) { c2.set("node_limit", "1"); c2.set("cutoff", "-3"); c2.set("integer_tolerance", "0.2"); c2.set("!max_iter", "4"); c2.set("random_generator_seed", "7"); }
      if (kind == 5) {
        BonminSetup b;
        guarded([&] { b.initializeOptionsAndJournalist(); applyOpts(b, c2); b.initialize(Ipopt::SmartPtr<TMINLP>(GetRawPtr(t2))); });
      } else runBonmin(GetRawPtr(t2), c2, &h);
      inRun = false;
    }
    bool same = r.p(0.3);
    hist += same ? "; again with the same problem object" : "; again";
    Trace T = solveOnce(M, c, same ? GetRawPtr(kept) : nullptr);
    ev_obs("repeats");
    if (same) ev_obs("repeats_same_object");
    if (!base.o.threw && base.o.nodes > 0) ev_obs("repeats_with_tree");
    // the sub-searches have time limits of their own, the shortest of 10 s
    if (base.cpu > 5 || T.cpu > 5) { ev_obs("repeat_too_slow"); return; }
    std::string d = differs(base, T);
    ev_state("repeat", base.o.threw ? "error" : std::string(statusName(base.o.mipStatus)) + "/" + c.algo);
    if (!d.empty()) {
      ev_viol("repeat-differs:" + d.substr(0, d.find(':')), M.name + " after " + hist + ": " + d + "; " + c.str());
      return;
    }
  }
}
ModeReg r1("repeat", caseRepeat);
}  // namespace
