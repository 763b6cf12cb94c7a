// C23: the MILP sub-solver wrapper, against exhaustive enumeration of random bounded MILPs.
#include "solve.hpp"
#include "BonSubMipSolver.hpp"
#include "BonCbcLpStrategy.hpp"
#include "CbcStrategy.hpp"
#include "OsiClpSolverInterface.hpp"
#include "CoinPackedMatrix.hpp"
#include <memory>
using namespace mon;
using namespace Bonmin;
namespace {
struct Milp {
  int n = 0, nI = 0;  // the integers are spread over the columns
  std::vector<char> isInt;
  std::vector<double> lo, hi, c;
  struct Row { std::vector<double> a; double l, u; };
  std::vector<Row> rows;
  double off = 0;
};
Milp genMilp(Rng &r) {
  Milp P;
  P.nI = r.i(1, 7);
  int nC = r.p(0.45) ? 0 : r.i(1, 3);
  P.n = P.nI + nC;
  P.isInt.assign(P.n, 0);
  for (int k = 0; k < P.nI;) {
    int j = r.i(0, P.n - 1);
    if (!P.isInt[j]) P.isInt[j] = 1, k++;
  }
  long dom = 1;
  std::vector<double> xs(P.n);
  for (int j = 0; j < P.n; j++) {
    double l = r.p(0.6) ? 0 : r.i(-4, 3), w = r.p(0.5) ? 1 : r.i(0, 5);
    if (P.isInt[j] && dom * (long)(w + 1) > 400) w = 1;
    if (P.isInt[j]) dom *= (long)(w + 1);
    P.lo.push_back(l), P.hi.push_back(l + w);
    P.c.push_back(r.p(0.1) ? 0 : r.nice(-9, 9, 0.5));
    xs[j] = P.isInt[j] ? l + r.i(0, (int)w) : r.u(l, l + w);
  }
  int m = r.i(0, 6);
  for (int i = 0; i < m; i++) {
    Milp::Row R;
    double act = 0;
    for (int j = 0; j < P.n; j++) {
      double a = r.p(0.3) ? 0 : r.p(0.3) ? r.i(-3, 3) : r.nice(-7, 7, 0.5);
      R.a.push_back(a), act += a * xs[j];
    }
    R.l = -COIN_DBL_MAX, R.u = COIN_DBL_MAX;
    double s1 = r.p(0.12) ? -r.u(0, 3) : r.u(0, 4), s2 = r.u(0.5, 5);
    int k = r.i(0, 9);
    if (k < 4) R.u = act + s1;
    else if (k < 7) R.l = act - s1;
    else if (k < 8) R.l = act - s1, R.u = std::max(R.l, act + s2);
    else if (k < 9 && P.nI < P.n) R.l = R.u = std::round(act * 2) / 2;
    else R.u = std::round(act);
    P.rows.push_back(R);
  }
  if (r.p(0.3)) P.off = r.nice(-5, 5);
  return P;
}
void load(OsiClpSolverInterface &s, const Milp &P) {
  CoinPackedMatrix M(false, 0, 0);
  M.setDimensions(0, P.n);
  std::vector<double> rl, ru;
  for (auto &R : P.rows) {
    CoinPackedVector v;
    for (int j = 0; j < P.n; j++)
      if (R.a[j]) v.insert(j, R.a[j]);
    M.appendRow(v);
    rl.push_back(R.l), ru.push_back(R.u);
  }
  s.loadProblem(M, P.lo.data(), P.hi.data(), P.c.data(), rl.data(), ru.data());
  for (int j = 0; j < P.n; j++)
    if (P.isInt[j]) s.setInteger(j);
  s.setDblParam(OsiObjOffset, -P.off);
  s.messageHandler()->setLogLevel(0);
}
double value(const Milp &P, const double *x) {
  double v = P.off;
  for (int j = 0; j < P.n; j++) v += P.c[j] * x[j];
  return v;
}
double breach(const Milp &P, const double *x, std::string &what) {
  double w = 0;
  auto up = [&](double v, const std::string &s) {
    if (!(v <= w)) w = v, what = s;
  };
  for (int j = 0; j < P.n; j++) {
    up(P.lo[j] - x[j], fmt("lower bound %d", j)), up(x[j] - P.hi[j], fmt("upper bound %d", j));
    if (P.isInt[j]) up(std::fabs(x[j] - std::round(x[j])), fmt("integrality %d", j));
  }
  for (size_t i = 0; i < P.rows.size(); i++) {
    double a = 0, sc = 1;
    for (int j = 0; j < P.n; j++) a += P.rows[i].a[j] * x[j], sc = std::max(sc, std::fabs(P.rows[i].a[j] * x[j]));
    up((P.rows[i].l - a) / sc, fmt("row %d", (int)i)), up((a - P.rows[i].u) / sc, fmt("row %d", (int)i));
  }
  return w;
}
// exact optimum by enumeration of the integers (one LP in the rest). doubtful: a change of the right hand sides by 1e-6 changes the answer
bool enumerate(const Milp &P, double &opt, bool &doubtful) {
  double best[2] = {1e300, 1e300};
  std::vector<int> ints, conts;
  for (int j = 0; j < P.n; j++) (P.isInt[j] ? ints : conts).push_back(j);
  for (int pass = 0; pass < 2; pass++) {
    double slack = pass ? 1e-5 : 0;
    std::vector<double> x = P.lo;
    OsiClpSolverInterface lp;
    if (!conts.empty()) {
      Milp Q = P;
      for (auto &R : Q.rows) {
        if (R.l > -1e50) R.l -= slack;
        if (R.u < 1e50) R.u += slack;
      }
      load(lp, Q);
    }
    for (;;) {
      if (conts.empty()) {
        bool ok = true;
        for (auto &R : P.rows) {
          double a = 0;
          for (int j = 0; j < P.n; j++) a += R.a[j] * x[j];
          if (a < R.l - slack - 1e-9 || a > R.u + slack + 1e-9) { ok = false; break; }
        }
        if (ok) best[pass] = std::min(best[pass], value(P, x.data()));
      } else {
        for (int j : ints) lp.setColBounds(j, x[j], x[j]);
        lp.initialSolve();
        if (lp.isProvenOptimal()) best[pass] = std::min(best[pass], value(P, lp.getColSolution()));
      }
      size_t k = 0;
      for (; k < ints.size(); k++) {
        int j = ints[k];
        if (x[j] + 1 <= P.hi[j] + 1e-9) { x[j] += 1; break; }
        x[j] = P.lo[j];
      }
      if (k == ints.size()) break;
    }
  }
  opt = best[0];
  doubtful = std::fabs(best[0] - best[1]) > 1e-3 && !(best[0] > 1e299 && best[1] > 1e299);
  return best[0] < 1e299;
}
void caseSub(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  Rng r(mix(seed, k) ^ 0x5b7);
  BonminSetup b;
  b.initializeOptionsAndJournalist();
  std::string prefix = r.pick(std::vector<std::string>{"bonmin.", "oa_decomposition.", "pump_for_minlp.", "milp_rounding."});
  std::string opts;
  auto set = [&](const std::string &n, const std::string &v) { b.readOptionsString(n + " " + v + "\n"), opts += " " + n + "=" + v; };
  std::string P1 = r.p(0.5) ? prefix : "bonmin.";
  bool par = r.p(0.5);
  if (par) set(P1 + "milp_solver", "Cbc_Par");
  else if (r.p(0.3)) set(P1 + "milp_solver", "Cbc_D");
  bool good = r.p(0.3);
  if (good) set(P1 + "milp_strategy", "find_good_sol");
  double gap = 0;
  if (r.p(0.3)) gap = r.pick(std::vector<double>{0.01, 0.1, 0.5}), set(P1 + "allowable_fraction_gap", fmt("%g", gap));
  if (par)
    for (const char *c : {"Gomory_cuts", "cover_cuts", "clique_cuts", "flow_cover_cuts", "mir_cuts"})
      if (r.p(0.5)) set(P1 + c, fmt("%d", r.pick(std::vector<int>{-99, -5, 0, 1, 3})));
  if (r.p(0.3)) set(P1 + "number_strong_branch", fmt("%d", r.i(0, 5)));
  std::vector<std::unique_ptr<SubMipSolver>> S;
  S.emplace_back(new SubMipSolver(b, prefix));
  SubMipSolver *s = S[0].get();
  Milp P = genMilp(r);
  std::unique_ptr<OsiClpSolverInterface> lp(new OsiClpSolverInterface);
  load(*lp, P);
  lp->initialSolve();
  s->setLpSolver(lp.get());
  if (s->solver() != lp.get()) ev_viol("milp-wrong-solver", "solver() is not the solver that was assigned");
  int rounds = r.i(1, 4);
  for (int it = 0; it < rounds; it++) {
    double opt;
    bool doubt;
    bool feas = enumerate(P, opt, doubt);
    if (doubt) { ev_obs("doubtful"); break; }
    double cutoff = r.p(0.5) ? (r.p(0.5) ? DBL_MAX : COIN_DBL_MAX) : (feas ? opt : 0) + r.pick(std::vector<double>{-3, -0.5, 0.5, 1, 4, 20});
    int how = r.i(0, 3);
    bool gs = how == 1 || (how >= 2 && good);
    double maxTime = r.p(0.06) ? 0 : 60;
    OsiCuts none;
    std::string ex = guarded([&] {
      if (how == 0) s->optimize(cutoff, 0, maxTime);
      else if (how == 1) s->find_good_sol(cutoff, 0, maxTime);
      else s->solve(cutoff, 0, maxTime);
    });
    std::string ctx = fmt("round %d how %d cutoff %g time %g feasible %d optimum %.9g gap %g n %d rows %d%s:", it, how, cutoff, maxTime, feas, opt, gap, P.n,
                          (int)P.rows.size(), opts.c_str());
    ev_obs("milps_solved");
    if (!ex.empty()) { ev_viol("milp-threw", ctx + ex); break; }
    const double *x = s->getLastSolution();
    double lb = s->lowBound();
    if (lb != s->getLowerBound()) ev_viol("milp-bound-getters", ctx + fmt("%g %g", lb, s->getLowerBound()));
    double tol = 1e-5 * (1 + std::fabs(opt)) + 1e-5;
    if (x) {
      ev_obs("milp_solutions");
      std::string what;
      double v = breach(P, x, what);
      if (!(v <= 1e-5)) ev_viol("milp-solution-infeasible", ctx + fmt(" %s violated by %g", what.c_str(), v));
      double val = value(P, x);
      if (feas && val < opt - tol) ev_viol("milp-solution-infeasible", ctx + fmt(" value %.9g below the optimum", val));
      if (!feas) ev_viol("milp-solution-infeasible", ctx + " solution of an infeasible problem");
      if (cutoff < 1e50 && val > cutoff + tol) ev_viol("milp-solution-above-cutoff", ctx + fmt(" value %.9g", val));
      if (s->optimal()) {
        ev_obs("milp_optimal_claims");
        double slack = gs ? 0 : gap * (std::fabs(opt) + std::fabs(val)) ;
        if (val > opt + tol + slack) ev_viol("milp-suboptimal", ctx + fmt(" value %.9g claimed optimal", val));
      } else
        ev_obs("milp_stopped");
    } else {
      if (s->optimal()) {
        ev_obs("milp_none_claims");
        if (feas && opt < cutoff - 1e-3 * (1 + std::fabs(cutoff < 1e50 ? cutoff : 0)))
          ev_viol("milp-false-infeasible", ctx + " no solution, flagged as completed");
      } else {
        ev_obs("milp_stopped");
        if (maxTime > 0 ) ev_viol("milp-gave-up", ctx + " neither a solution nor a proof");
      }
    }
    if (!gs && maxTime > 0 && !s->optimal()) ev_viol("milp-gave-up", ctx + " not completed although nothing stopped it");
    if (feas) {
      ev_obs("milp_bounds");
      if (cutoff > opt && lb > opt + tol) ev_viol("milp-bound-above-optimum", ctx + fmt(" bound %.9g", lb));
      if (lb > opt + tol && cutoff < opt) ev_obs("bound_above_cutoff");
    }
    if (!gs && s->optimal() && x && gap == 0 && lb < opt - tol) ev_obs("loose_bound");
    // the caller's LP is still his
    for (int j = 0; j < P.n; j++)
      if (lp->getColLower()[j] != P.lo[j] || lp->getColUpper()[j] != P.hi[j] || lp->getObjCoefficients()[j] != P.c[j] || lp->isInteger(j) != (P.isInt[j] != 0)) {
        ev_viol("milp-lp-changed", ctx + fmt(" column %d of the LP was changed", j));
        break;
      }
    if (lp->getNumRows() != (int)P.rows.size()) ev_viol("milp-lp-changed", ctx + " rows of the LP were changed");
    // modify as the decomposition algorithms do
    if (it + 1 == rounds) break;
    int op = r.i(0, 5);
    if (op == 0) {  // no-good like or improving cut
      Milp::Row R;
      for (int j = 0; j < P.n; j++) R.a.push_back(r.p(0.3) ? 0 : r.i(-3, 3));
      double act = 0;
      for (int j = 0; j < P.n; j++) act += R.a[j] * (x ? x[j] : P.lo[j]);
      R.l = -COIN_DBL_MAX, R.u = act - r.u(0, 1.5);
      CoinPackedVector v;
      for (int j = 0; j < P.n; j++)
        if (R.a[j]) v.insert(j, R.a[j]);
      if (v.getNumElements()) {
        OsiRowCut cut;
        cut.setRow(v), cut.setLb(R.l), cut.setUb(R.u);
        OsiCuts cs;
        cs.insert(cut);
        lp->applyCuts(cs);
        P.rows.push_back(R);
      }
    } else if (op == 1) {
      for (int j = 0; j < P.n; j++) P.c[j] = r.nice(-5, 5, 0.5), lp->setObjCoeff(j, P.c[j]);
    } else if (op == 2) {
      int j = r.i(0, P.n - 1);
      double v = P.isInt[j] ? r.i((int)P.lo[j], (int)P.hi[j]) : r.u(P.lo[j], P.hi[j]);
      if (r.p(0.5)) P.lo[j] = v; else P.hi[j] = v;
      lp->setColBounds(j, P.lo[j], P.hi[j]);
    } else if (op == 3) {  // a copy of the wrapper goes on
      SubMipSolver *c = new SubMipSolver(*s);
      S.emplace_back(c);
      if (c->solver() != lp.get()) {
        std::string what;
        if (!c->solver() || c->solver()->getNumCols() != P.n) ev_viol("milp-copy", "the copy has another problem");
      }
      if (r.p(0.5)) S.erase(S.begin() + (S.size() - 2));
      s = c;
      ev_obs("wrapper_copies");
      if (s->optimal() || s->getLastSolution()) ev_viol("milp-copy", "the copy claims results it has not computed");
    } else if (op == 4) {  // a fresh problem
      P = genMilp(r);
      std::unique_ptr<OsiClpSolverInterface> nl(new OsiClpSolverInterface);
      load(*nl, P);
      if (r.p(0.5)) nl->initialSolve();
      s->setLpSolver(nl.get());
      lp = std::move(nl);
      if (s->getLastSolution() || s->optimal()) ev_viol("milp-stale", "results of the previous problem kept after assigning another");
      ev_obs("problems_replaced");
    } else {
      CbcStrategyDefault d;
      s->setStrategy(&d);
    }
  }
}
ModeReg r1("submip", caseSub);
}  // namespace
