// Linear relaxations and single cut-generation calls at chosen points: validity at every known feasible point and
// separation of the point the linearization was taken at.
#include "solve.hpp"
#include "nlp.hpp"
#include "OsiClpSolverInterface.hpp"
#include "OsiCuts.hpp"
#include "CoinPackedMatrix.hpp"
using namespace Bonmin;
using namespace Ipopt;
namespace mon {
struct Row { std::vector<int> idx; std::vector<double> el; double lb, ub; bool global; };
static std::vector<Row> rowsOf(const OsiCuts &cs) {
  std::vector<Row> v;
  for (int i = 0; i < cs.sizeRowCuts(); i++) {
    const OsiRowCut &c = cs.rowCut(i);
    Row r;
    r.idx.assign(c.row().getIndices(), c.row().getIndices() + c.row().getNumElements());
    r.el.assign(c.row().getElements(), c.row().getElements() + c.row().getNumElements());
    r.lb = c.lb(); r.ub = c.ub(); r.global = c.globallyValid();
    v.push_back(r);
  }
  return v;
}
static std::vector<Row> rowsOf(const OsiSolverInterface &si) {
  std::vector<Row> v;
  const CoinPackedMatrix *m = si.getMatrixByRow();
  for (int i = 0; i < si.getNumRows(); i++) {
    Row r;
    int s = m->getVectorStarts()[i], l = m->getVectorLengths()[i];
    r.idx.assign(m->getIndices() + s, m->getIndices() + s + l);
    r.el.assign(m->getElements() + s, m->getElements() + s + l);
    r.lb = si.getRowLower()[i]; r.ub = si.getRowUpper()[i]; r.global = true;
    v.push_back(r);
  }
  return v;
}
// violation of a row at (x, alpha); mag returns the magnitude of the terms
static double viol(const Row &r, const std::vector<double> &x, double alpha, double &mag) {
  double s = 0;
  mag = 1;
  for (size_t k = 0; k < r.idx.size(); k++) {
    double t = r.el[k] * (r.idx[k] < (int)x.size() ? x[r.idx[k]] : alpha);
    s += t; mag += std::fabs(t);
  }
  double v = -1e300;
  if (r.lb > -1e20) v = std::max(v, r.lb - s);
  if (r.ub < 1e20) v = std::max(v, s - r.ub);
  return v;
}
static std::string rowStr(const Row &r) {
  std::string s = fmt("%.8g <= ", r.lb);
  for (size_t k = 0; k < r.idx.size(); k++) s += fmt("%+.6g*x%d ", r.el[k], r.idx[k]);
  return s + fmt("<= %.8g", r.ub);
}
static std::string ps(const std::vector<double> &x) { std::string s = "("; for (double v : x) s += fmt("%.7g ", v); return s + ")"; }
static void valid(const char *what, const std::vector<Row> &rows, const Model &M, const Ref &R, const std::string &ctx) {
  for (auto &r : rows) {
    ev_obs("rows_checked");
    for (size_t p = 0; p < R.feas.size(); p++) {
      double mag, v = viol(r, R.feas[p], R.assignObj[p], mag);
      ev_obs("point_checks");
      if (v > 3e-6 * mag) { ev_viol(std::string("relaxation-cuts-feasible:") + what, ctx + fmt(" violated by %.3g: ", v) + rowStr(r) + " at feasible " + ps(R.feas[p])); return; }
    }
  }
}
// a row violated at x must exist whenever some nonlinear row of the model is violated at x by more than tol
static void separates(const char *what, const std::vector<Row> &rows, const Model &M, const std::vector<double> &x, bool obj, const std::string &ctx, double eps, const double *duals = nullptr) {
  double worst = 0; int wi = -1;
  for (int i = 0; i < M.m; i++) {
    if (M.g[i].linear()) continue;
    // two-sided: one side is kept, chosen by the multiplier of the row (after the 2n multipliers of the bounds)
    if (M.gl[i] > -1e19 && M.gu[i] < 1e19) {
      if (!duals || std::fabs(duals[2 * M.n + i]) < 1e-4) continue;
      ev_obs("two_sided_active");
    }
    double g;
    if (!M.g[i].eval(x.data(), g)) return;
    double v = std::max(M.gu[i] < 1e19 ? g - M.gu[i] : -1., M.gl[i] > -1e19 ? M.gl[i] - g : -1.);
    // each violated row must be cut by at least as much (within tolerance) by some produced row
    if (v > 1e-4) {
      ev_obs("separations");
      double best = -1e300;
      for (auto &r : rows) { double mag; best = std::max(best, viol(r, x, 1e7, mag)); }
      if (best < v * (1 - 1e-3) - 1e-5 - eps) { ev_viol(std::string("no-separation:") + what, ctx + fmt(" row %d violated by %.6g at the linearization point, largest cut violation %.6g; point ", i, v, best) + ps(x)); return; }
    }
    if (v > worst) { worst = v; wi = i; }
  }
  if (obj) {
    double f;
    if (!M.f.eval(x.data(), f)) return;
    ev_obs("objective_supports");
    // the objective row supports f at x: alpha = f - 0.1(1+|f|) is cut off, alpha = f is not cut off by it
    double a = f - 0.1 * (1 + std::fabs(f)), best = -1e300;
    for (auto &r : rows) {
      bool has = false;
      for (int j : r.idx) if (j == M.n) has = true;
      if (!has) continue;
      double mag;
      best = std::max(best, viol(r, x, a, mag));
    }
    if (best < 0.05 * (1 + std::fabs(f))) ev_viol(std::string("no-objective-support:") + what, ctx + fmt(" f=%.9g at the linearization point, value %.9g is not cut off (%.3g); point ", f, a, best) + ps(x));
  }
}

static void relaxCase(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  GenOpts g;
  g.pInfeasible = 0;
  g.domainCap = 20;
  g.pTwoSided = 0.3;
  g.pNoInt = 0.1;
  Model M; Ref R;
  if (!genWithRef(mix(seed, 41), k, g, M, R) || R.status != 0) { ev_obs("gen_inconclusive"); return; }
  Rng r(mix(mix(seed, 42), k));
  std::string ctx = M.name;
  SmartPtr<MTMINLP> t = new MTMINLP(M);
  Config c;
  if (r.p(0.3)) c.opts.push_back({"tiny_element", r.pick(std::vector<std::string>{"1e-6", "1e-8", "0"})});
  if (r.p(0.3)) c.opts.push_back({"oa_rhs_relax", r.pick(std::vector<std::string>{"0", "1e-8", "1e-6"})});
  NlpUnderTest u(GetRawPtr(t), c);
  if (!u.error.empty()) { ev_viol("setup-threw", ctx + " " + u.error); return; }
  OsiTMINLPInterface &si = *u.si;
  auto pt = [&]() {
    std::vector<double> x(M.n);
    for (int j = 0; j < M.n; j++) {
      double lo = std::max(M.xl[j], -4.), hi = std::min(M.xu[j], 4.);
      if (lo > hi) { lo = M.xl[j] > -1e10 ? M.xl[j] : M.xu[j]; hi = lo; }
      x[j] = r.u(lo, hi);
      if (M.type[j] && r.p(0.7)) x[j] = std::floor(x[j] + 0.5);
      if (r.p(0.15)) x[j] = r.p(0.5) ? lo : hi;
    }
    return x;
  };
  std::string e = guarded([&] {
    bool solved = false;
    int nTwo = 0;  // nonlinear rows with two sides are linearized using the duals of the last solve
    for (int i = 0; i < M.m; i++) if (!M.g[i].linear() && M.gl[i] > -1e19 && M.gu[i] < 1e19) nTwo++;
    if (r.p(0.8) || nTwo) { si.initialSolve(); solved = true; }
    if (nTwo) { if (!si.isProvenOptimal()) return; ev_obs("two_sided"); }
    for (int rep = 0; rep < 4; rep++) {
      if (nTwo && rep) si.initialSolve();
      if (nTwo) {  // the sign of a negligible multiplier is noise of the NLP solver
        bool noise = false;
        for (int i = 0; i < M.m; i++)
          if (!M.g[i].linear() && M.gl[i] > -1e19 && M.gu[i] < 1e19 && std::fabs(si.getRowPrice()[2 * M.n + i]) < 1e-4) noise = true;
        if (noise) { ev_obs("two_sided_inactive"); return; }
      }
      std::vector<double> x = pt();
      int what = r.i(0, 5);
      double v;
      if (!M.violation(x.data(), v)) continue;
      if (what == 0) {
        OsiClpSolverInterface lp;
        lp.messageHandler()->setLogLevel(0);
        bool wantObj = r.p(0.8);
        si.extractLinearRelaxation(lp, x.data(), wantObj);
        ev_obs("extractLinearRelaxation");
        auto rows = rowsOf(lp);
        bool alpha = lp.getNumCols() == M.n + 1;
        if (lp.getNumCols() != M.n + ((wantObj && !M.declLinObj) ? 1 : 0)) ev_viol("relaxation-shape", ctx + fmt(" %d columns for %d variables", lp.getNumCols(), M.n));
        bool allRows = lp.getNumRows() == M.m + (alpha ? 1 : 0);
        if (!allRows && (lp.getNumRows() > M.m + 1 || lp.getNumRows() < M.m + (alpha ? 1 : 0) - nTwo)) ev_viol("relaxation-shape", ctx + fmt(" %d rows for %d constraints", lp.getNumRows(), M.m));
        for (int j = 0; j < M.n; j++) {
          bool bad = false;
          if (M.xl[j] > -1e19 ? lp.getColLower()[j] != M.xl[j] : lp.getColLower()[j] > -1e19) bad = true;
          if (M.xu[j] < 1e19 ? lp.getColUpper()[j] != M.xu[j] : lp.getColUpper()[j] < 1e19) bad = true;
          if ((M.type[j] != 0) != lp.isInteger(j)) bad = true;
          if (bad) { ev_viol("relaxation-columns", ctx + fmt(" column %d: [%g,%g] %s, model [%g,%g]", j, lp.getColLower()[j], lp.getColUpper()[j], lp.isInteger(j) ? "int" : "cont", M.xl[j], M.xu[j])); break; }
        }
        valid("extractLinearRelaxation", rows, M, R, ctx);
        separates("extractLinearRelaxation", rows, M, x, alpha, ctx, 1e-4, nTwo ? si.getRowPrice() : nullptr);
        // linear rows are reproduced exactly, up to their constant
        for (int i = 0; i < M.m && i < (int)rows.size() && allRows; i++) {
          if (!M.g[i].linear()) continue;
          std::vector<double> y = pt();
          double gv; M.g[i].eval(y.data(), gv);
          double mv = -1e300, mag;
          if (M.gl[i] > -1e19) mv = std::max(mv, M.gl[i] - gv);
          if (M.gu[i] < 1e19) mv = std::max(mv, gv - M.gu[i]);
          double lv = viol(rows[i], y, 0, mag);
          ev_obs("linear_rows_compared");
          if ((mv > -1e299) != (lv > -1e299) || (mv > -1e299 && std::fabs(mv - lv) > 1e-5 * (mag + std::fabs(mv)))) { ev_viol("relaxation-linear-row", ctx + fmt(" linear row %d: slack %.9g in the problem, %.9g in the relaxation", i, mv, lv)); break; }
        }
        if (wantObj && !alpha) {  // linear objective copied
          double off; lp.getDblParam(OsiObjOffset, off);
          double s = -off, f; M.f.eval(x.data(), f);
          for (int j = 0; j < M.n; j++) s += lp.getObjCoefficients()[j] * x[j];
          ev_obs("linear_objectives_compared");
          if (std::fabs(s - f) > 1e-6 * (1 + std::fabs(f))) ev_viol("relaxation-objective", ctx + fmt(" LP objective %.9g, problem objective %.9g", s, f));
        }
      } else if (what <= 2) {
        OsiClpSolverInterface lp;  // the Jacobian structure is set up by the relaxation
        lp.messageHandler()->setLogLevel(0);
        std::vector<double> x1 = pt();
        if (!M.violation(x1.data(), v)) continue;
        if (r.p(0.5)) si.extractLinearRelaxation(lp, x1.data(), true);
        OsiCuts cs;
        bool global = r.p(0.5);
        bool obj = r.p(0.7);
        si.getOuterApproximation(cs, x.data(), obj ? (r.p(0.3) ? 2 : 1) : 0, NULL, global);
        ev_obs("getOuterApproximation");
        auto rows = rowsOf(cs);
        for (auto &q : rows) if (q.global != global) ev_viol("cut-scope", ctx + fmt(" cut marked %s, asked for %s", q.global ? "global" : "local", global ? "global" : "local"));
        valid("getOuterApproximation", rows, M, R, ctx);
        separates("getOuterApproximation", rows, M, x, obj && !M.declLinObj, ctx, 1e-4, nTwo ? si.getRowPrice() : nullptr);
      } else if (what == 3) {
        // only violated cuts: those kept must still separate x2 whenever x2 = x
        OsiCuts cs;
        std::vector<double> x2 = x;
        double f; M.f.eval(x.data(), f);
        x2.push_back(f - 1 - std::fabs(f));
        si.getOuterApproximation(cs, x.data(), 1, x2.data(), r.p(0.5));
        ev_obs("getOuterApproximation_violated");
        auto rows = rowsOf(cs);
        valid("getOuterApproximation-violated", rows, M, R, ctx);
        separates("getOuterApproximation-violated", rows, M, x, !M.declLinObj, ctx, 1e-4, nTwo ? si.getRowPrice() : nullptr);
        // another point to cut: what remains is valid and cuts whatever the whole approximation cuts
        Rng q2(mix(mix(seed, 4711), k) + (uint64_t)rep);
        OsiCuts every, kept;
        for (int j = 0; j < M.n; j++) {
          double l = std::max(M.xl[j], x[j] - 3), u = std::min(M.xu[j], x[j] + 3);
          x2[j] = l < u ? q2.u(l, u) : x[j];
        }
        if (!M.f.eval(x2.data(), f)) continue;
        x2[M.n] = f - q2.u(-1, 2);
        si.getOuterApproximation(every, x.data(), 1, NULL, true);
        si.getOuterApproximation(kept, x.data(), 1, x2.data(), true);
        ev_obs("getOuterApproximation_other_point");
        valid("getOuterApproximation-other", rowsOf(kept), M, R, ctx);
        auto worst = [&](const std::vector<Row> &rs) { double w = 0, mag; for (auto &q : rs) { double e = viol(q, x2, x2[M.n], mag); w = std::max(w, e / mag); } return w; };
        double w1 = worst(rowsOf(every)), w2 = worst(rowsOf(kept));
        if (w1 > 1e-5 && w2 < w1 * (1 - 1e-6)) ev_viol("outer-approximation-drops-violated", ctx + fmt(" violation %.9g of the whole approximation, %.9g of the cuts kept", w1, w2));
      } else if (what == 4) {
        if (M.m == 0) continue;
        int i = r.i(0, M.m - 1);
        if (!(M.gl[i] > -1e19 && M.gu[i] < 1e19)) {
          OsiCuts cs;
          if (M.g[i].support().empty()) continue;
          si.getConstraintOuterApproximation(cs, i, x.data(), NULL, true);
          ev_obs("getConstraintOuterApproximation");
          auto rows = rowsOf(cs);
          valid("getConstraintOuterApproximation", rows, M, R, ctx);
          double gv, mag; M.g[i].eval(x.data(), gv);
          double mv = std::max(M.gu[i] < 1e19 ? gv - M.gu[i] : -1e300, M.gl[i] > -1e19 ? M.gl[i] - gv : -1e300);
          if (rows.size() == 1 && mv > -1e299) {
            double cv = viol(rows[0], x, 0, mag);
            if (std::fabs(cv - mv) > 1e-4 * mag) ev_viol("no-separation:getConstraintOuterApproximation", ctx + fmt(" row %d slack %.9g at the linearization point, cut %.9g", i, mv, cv));
          }
        }
      } else {
        // Benders cut at the optimum with the integers fixed
        if (!solved) { si.initialSolve(); solved = true; }
        size_t p = r.next() % R.feas.size();
        for (int j = 0; j < M.n; j++) if (M.type[j]) { double q = std::floor(R.feas[p][j] + 0.5); si.setColLower(j, q); si.setColUpper(j, q); }
        si.resolve();
        if (si.isProvenOptimal()) {
          OsiCuts cs;
          OsiClpSolverInterface lp; lp.messageHandler()->setLogLevel(0);
          std::vector<double> xs(si.getColSolution(), si.getColSolution() + M.n);
          double fo = si.getObjValue();
          si.getBendersCut(cs, true);
          ev_obs("getBendersCut");
          auto rows = rowsOf(cs);
          // the cut aggregates with multipliers and is only as accurate as the NLP solution
          for (auto &rw : rows) {
            if (M.declLinObj) break;
            for (size_t q = 0; q < R.feas.size(); q++) {
              double mag, vv = viol(rw, R.feas[q], R.assignObj[q], mag);
              if (vv > 1e-4 * mag) { ev_viol("relaxation-cuts-feasible:getBendersCut", ctx + fmt(" violated by %.3g: ", vv) + rowStr(rw) + " at " + ps(R.feas[q])); break; }
            }
            double mag, vv = viol(rw, xs, fo - 0.1 * (1 + std::fabs(fo)), mag);
            if (vv < 0.05 * (1 + std::fabs(fo)) - 1e-4 * mag) ev_viol("no-objective-support:getBendersCut", ctx + fmt(" optimum %.9g of the fixed problem is not supported (%.3g): ", fo, vv) + rowStr(rw));
          }
        }
        for (int j = 0; j < M.n; j++) if (M.type[j]) { si.setColLower(j, M.xl[j]); si.setColUpper(j, M.xu[j]); }
      }
    }
  });
  if (!e.empty()) ev_note("EXC " + e);
  ev_obs("interfaces");
  if (a.count("verbose") || (a.count("sample") && k % 7 == 0)) ev_note(M.describe() + c.str());
  t->flushContract();
}
static ModeReg r1("relax", relaxCase);
}  // namespace mon
