// The NLP solver interface under random histories: bounds, starting points, warm starts, hot starts, re-solves, distance
// problems, copies and deletions, on up to four interfaces that stem from each other. After every operation each live
// interface is read back and compared with what its own history says (C05); an interface that was not the target of
// the operation must not have changed at all (C11); warm starts are compared with what was stored (C16).
#include "nlp.hpp"
#include "BonIpoptWarmStart.hpp"
#include "BonIpoptSolver.hpp"
#include <memory>
using namespace Bonmin;
using namespace Ipopt;
namespace mon {
namespace {
struct Ws {  // a stored warm start together with the point it was taken from
  std::unique_ptr<CoinWarmStart> ws;
  std::vector<double> x, d;
};
struct Live {
  std::unique_ptr<OsiTMINLPInterface> own;
  OsiTMINLPInterface *si = nullptr;
  std::vector<double> lo, hi;
  bool wsFresh = false;  // the last solve was one of the original problem
  bool fp = false;  // switched to a distance problem
  // last read back results
  bool solved = false;
  std::vector<double> x, d, g;
  double obj = 0;
  int st = -1;
};
std::string vs(const std::vector<double> &x) { std::string s = "("; for (double v : x) s += fmt("%.9g ", v); return s + ")"; }
int statusOf(OsiTMINLPInterface &s) {
  return s.isProvenOptimal() | s.isProvenPrimalInfeasible() << 1 | s.isProvenDualInfeasible() << 2 | s.isAbandoned() << 3 | s.isIterationLimitReached() << 4;
}
void snap(Live &L, const Model &M) {
  L.x.clear();
  if (L.si->getColSolution()) L.x.assign(L.si->getColSolution(), L.si->getColSolution() + M.n);
  L.d.clear();
  if (L.si->getRowPrice()) L.d.assign(L.si->getRowPrice(), L.si->getRowPrice() + 2 * M.n + M.m);
  L.g.clear();
  if (L.solved && L.si->getRowActivity()) L.g.assign(L.si->getRowActivity(), L.si->getRowActivity() + M.m);
  L.obj = L.si->getObjValue();
  L.st = statusOf(*L.si);
}
}  // namespace

static void ifaceCase(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  GenOpts g;
  g.pInfeasible = 0.1;
  g.pTwoSided = 0.12;
  g.maxInt = 3; g.maxCont = 3;
  Rng r(mix(mix(seed, 61), k));
  Model M = genConvex(mix(mix(seed, 62), k), g);
  SmartPtr<MTMINLP> t = new MTMINLP(M);
  t->scaling = false;
  Config c;
  typedef std::vector<std::string> V;
  std::string mode = r.pick(V{"none", "fake_basis", "optimum", "optimum", "interior_point"});
  c.opts.push_back({"warm_start", mode});
  bool retries = r.p(0.25);
  if (retries) {
    if (r.p(0.5)) c.opts.push_back({"num_resolve_at_root", std::to_string(r.i(0, 2))});
    if (r.p(0.5)) c.opts.push_back({"num_resolve_at_node", std::to_string(r.i(0, 2))});
    if (r.p(0.5)) c.opts.push_back({"num_resolve_at_infeasibles", std::to_string(r.i(0, 2))});
    if (r.p(0.5)) c.opts.push_back({"num_retry_unsolved_random_point", std::to_string(r.i(0, 2))});
    if (r.p(0.5)) c.opts.push_back({"random_point_type", r.pick(V{"Jon", "Andreas"})});
  }
  std::string ctx = M.name + " ws=" + mode + (retries ? " retries" : "");
  NlpUnderTest u(GetRawPtr(t), c);
  if (!u.error.empty()) { ev_viol("setup-threw", ctx + " " + u.error); return; }
  std::vector<std::unique_ptr<Live>> L;
  L.emplace_back(new Live);
  L[0]->si = u.si; L[0]->lo = M.xl; L[0]->hi = M.xu;
  snap(*L[0], M);
  std::vector<Ws> stored;
  std::string hist;
  bool exposed = mode == "optimum" || mode == "interior_point";
  auto bad = [&](const char *key, const std::string &d) { ev_viol(key, ctx + " " + d + " history:" + hist + (a.count("verbose") ? " model " + M.describe() : "")); };
  auto boundsOk = [&](Live &l, const char *op) {
    ev_obs("bounds_checked");
    for (int i = 0; i < M.n; i++)
      if (l.si->getColLower()[i] != l.lo[i] || l.si->getColUpper()[i] != l.hi[i]) {
        bad("bounds-changed", fmt("after %s variable %d has [%.9g,%.9g], set was [%.9g,%.9g]", op, i, l.si->getColLower()[i], l.si->getColUpper()[i], l.lo[i], l.hi[i]));
        return false;
      }
    for (int i = 0; i < M.m; i++)
      if (l.si->getRowLower()[i] != M.gl[i] || l.si->getRowUpper()[i] != M.gu[i]) { bad("bounds-changed", fmt("after %s row %d has other bounds", op, i)); return false; }
    return true;
  };
  // judge the result of a solve of the original problem with the bounds of l
  auto judge = [&](Live &l, const char *op) {
    ev_obs("nlp_solves");
    l.wsFresh = std::string(op) == "initialSolve" || std::string(op) == "resolve";
    OsiTMINLPInterface &s = *l.si;
    int st = statusOf(s), base = st & 15;
    ev_state("nlp_outcome", fmt("%s/%d", op, st));
    if (base != 1 && base != 2 && base != 4 && base != 8) {
      if (base == 0) { ev_obs("no_outcome"); return; }
      bad("outcomes-overlap", fmt("%s signals optimal=%d infeasible=%d unbounded=%d abandoned=%d", op, st & 1, st >> 1 & 1, st >> 2 & 1, st >> 3 & 1));
      return;
    }
    if ((st & 16) && base != 8) bad("outcomes-overlap", fmt("%s signals an iteration limit and outcome %d", op, base));
    double obj, mg, lam; std::vector<double> x;
    int ref = solveConvexNlp(M, l.lo, l.hi, obj, x, mg, lam);
    if (base == 1) {
      ev_obs("nlp_optimal");
      std::vector<double> y(s.getColSolution(), s.getColSolution() + M.n);
      for (int i = 0; i < M.n; i++)
        if (!(y[i] >= l.lo[i] - 1e-7 * (1 + std::fabs(l.lo[i])) && y[i] <= l.hi[i] + 1e-7 * (1 + std::fabs(l.hi[i])))) { bad("solution-outside-bounds", fmt("%s: x%d=%.12g not in [%.9g,%.9g]", op, i, y[i], l.lo[i], l.hi[i])); return; }
      double f;
      if (!M.f.eval(y.data(), f) || std::fabs(f - s.getObjValue()) > 1e-5 * (1 + std::fabs(f))) { bad("objective-mismatch", fmt("%s: getObjValue %.12g, f at the solution %.12g", op, s.getObjValue(), f)); return; }
      for (int i = 0; i < M.m; i++) {
        double gv;
        if (!M.g[i].eval(y.data(), gv)) continue;
        if (std::fabs(gv - s.getRowActivity()[i]) > 1e-5 * (1 + std::fabs(gv))) { bad("activity-mismatch", fmt("%s: row %d activity %.12g, g at the solution %.12g", op, i, s.getRowActivity()[i], gv)); return; }
        double sc = 1 + std::fabs(gv);
        if (gv > M.gu[i] + 1e-4 * sc || gv < M.gl[i] - 1e-4 * sc) { bad("nlp-infeasible-solution", fmt("%s: row %d = %.9g outside [%.9g,%.9g]", op, i, gv, M.gl[i], M.gu[i])); return; }
      }
      if (ref == 1 && mg > 1e-3) bad("optimal-on-infeasible", fmt("%s claims an optimum, the bounds allow no feasible point (margin %.3g)", op, mg));
      if (ref == 0) {
        ev_obs("nlp_optima_compared");
        double tol = 2e-4 * (1 + std::fabs(obj)) + 2e-5 * lam;
        double vv;
        if (f < obj - tol && M.violation(y.data(), vv) && vv < 1e-4) ev_obs("reference_beaten");  // the reference is not the optimum
        else if (std::fabs(f - obj) > tol) bad("nlp-wrong-optimum", fmt("%s: optimum %.9g, reference %.9g (tol %.2g)", op, f, obj, tol));
      }
    } else if (base == 2) {
      ev_obs("nlp_infeasible");
      if (ref == 0 && mg < -1e-5) bad("infeasible-on-feasible", fmt("%s claims infeasible, optimum %.9g exists", op, obj));
    } else if (base == 4) bad("nlp-unbounded-claim", fmt("%s claims unbounded", op));
    else ev_obs("nlp_abandoned");
  };
  auto rndPoint = [&](Live &l) {
    std::vector<double> x(M.n);
    for (int i = 0; i < M.n; i++) { double b = std::max(l.lo[i], -4.), e = std::min(l.hi[i], 4.); if (b > e) b = e = (l.lo[i] > -1e10 ? l.lo[i] : l.hi[i]); x[i] = r.p(0.2) ? b : r.u(b, e); }
    return x;
  };
  auto changeBound = [&](Live &l) {
    int i = r.i(0, M.n - 1);
    double L0 = M.xl[i], U0 = M.xu[i];
    double b = std::max(L0, -4.), e = std::min(U0, 4.);
    if (b > e) { b = std::max(L0, U0 - 4); e = U0; if (b < -1e10) b = e - 4; if (L0 > 4) { b = L0; e = std::min(U0, L0 + 4); } }
    double nl = l.lo[i], nu = l.hi[i];
    switch (r.i(0, 3)) {
      case 0: nl = L0; nu = U0; break;
      case 1: nl = nu = M.type[i] ? std::round(r.u(b, e)) : r.u(b, e); if (nl < L0 || nl > U0) nl = nu = b; break;
      case 2: nu = M.type[i] ? std::floor(r.u(b, e)) : r.u(b, e); if (nu < nl) nu = nl; break;
      default: nl = M.type[i] ? std::ceil(r.u(b, e)) : r.u(b, e); if (nl > nu) nl = nu; break;
    }
    if (r.p(0.7)) {
      if (nl != l.lo[i] || r.p(0.3)) l.si->setColLower(i, nl);
      if (nu != l.hi[i] || r.p(0.3)) l.si->setColUpper(i, nu);
      l.lo[i] = nl; l.hi[i] = nu;
    } else {
      l.lo[i] = nl; l.hi[i] = nu;
      l.si->setColLower(l.lo.data());
      l.si->setColUpper(l.hi.data());
    }
    hist += fmt(" x%d:[%.6g,%.6g]", i, nl, nu);
  };
  int steps = 5 + r.i(0, 9);
  for (int step = 0; step < steps; step++) {
    int wi = r.i(0, (int)L.size() - 1);
    Live &l = *L[wi];
    OsiTMINLPInterface &s = *l.si;
    std::string op, e;
    int what = r.i(0, 17);
    if (what > 15) what = 11;
    hist += fmt(" %d#", wi);
    switch (what) {
      case 0: case 1: case 2: {
        op = "bounds";
        int n = r.p(0.1) ? 3 * M.n : r.i(1, 3);
        for (int q = 0; q < n; q++) changeBound(l);
        l.solved = false;
        break;
      }
      case 3: {  // fix everything
        op = "fix-all";
        if (l.fp) { s.switchToOriginalProblem(); l.fp = false; }
        std::vector<double> x = rndPoint(l);
        for (int i = 0; i < M.n; i++) { double v = M.type[i] ? std::round(x[i]) : x[i]; v = std::min(std::max(v, M.xl[i]), M.xu[i]); l.lo[i] = l.hi[i] = v; s.setColLower(i, v); s.setColUpper(i, v); }
        hist += op + vs(l.lo);
        l.solved = false;
        if (r.p(0.8)) { bool ini = r.p(0.5); hist += ini ? " initialSolve" : " resolve"; e = guarded([&] { ini ? s.initialSolve() : s.resolve(); }); if (e.empty()) { l.solved = true; ev_obs("zero_dimension"); judge(l, ini ? "initialSolve" : "resolve"); } }
        break;
      }
      case 4: {
        op = "setColSolution"; hist += op;
        std::vector<double> x = rndPoint(l);
        if (r.p(0.2)) s.setColSolution(NULL); else s.setColSolution(x.data());
        l.solved = false;
        break;
      }
      case 5: case 6: case 7: {
        op = "initialSolve"; hist += op;
        if (l.fp) { s.switchToOriginalProblem(); l.fp = false; }
        e = guarded([&] { s.initialSolve(); });
        l.solved = e.empty();
        if (e.empty()) judge(l, "initialSolve");
        break;
      }
      case 8: case 9: case 10: {
        op = "resolve"; hist += op;
        if (l.fp) { s.switchToOriginalProblem(); l.fp = false; }
        e = guarded([&] { s.resolve(); });
        l.solved = e.empty();
        if (e.empty()) judge(l, "resolve");
        break;
      }
      case 11: {  // warm starts
        op = "warmstart"; hist += op;
        if (stored.empty() || r.p(0.5)) {
          Ws w;
          w.ws.reset(s.getWarmStart());
          if (!w.ws) { bad("warm-start", "getWarmStart returned NULL"); break; }
          IpoptWarmStart *iw = dynamic_cast<IpoptWarmStart *>(w.ws.get());
          if (exposed && !iw) bad("warm-start", "getWarmStart returned another type");
          if (exposed && iw && !iw->empty()) {
            w.x.assign(iw->primal(), iw->primal() + iw->primalSize());
            w.d.assign(iw->dual(), iw->dual() + iw->dualSize());
            ev_obs("warm_starts_taken");
            // right after a successful solve it is the solution
            if (l.solved && l.wsFresh && (l.st & 1) && !l.fp && l.x.size() && (int)w.x.size() == M.n) {
              ev_obs("warm_starts_compared");
              bool same = true;
              for (int i = 0; i < M.n; i++) if (w.x[i] != s.getColSolution()[i]) same = false;
              for (size_t i = 0; i < w.d.size(); i++) if (w.d[i] != s.getRowPrice()[i]) same = false;
              if (!same) bad("warm-start", "the warm start taken after a solve is not the solution of that solve: " + vs(w.x));
            }
          }
          if (stored.size() > 3) stored.erase(stored.begin());
          stored.push_back(std::move(w));
        } else {
          Ws &w = stored[r.i(0, (int)stored.size() - 1)];
          bool ok = true;
          std::unique_ptr<CoinWarmStart> routed;
          CoinWarmStart *use = w.ws.get();
          if (exposed && !w.x.empty() && r.p(0.5)) {  // through a difference against another stored one
            Ws &b = stored[r.i(0, (int)stored.size() - 1)];
            if (!b.x.empty()) {
              std::unique_ptr<CoinWarmStart> base(b.ws->clone());
              std::unique_ptr<CoinWarmStartDiff> df(w.ws->generateDiff(base.get()));
              base->applyDiff(df.get());
              routed = std::move(base);
              use = routed.get();
              ev_obs("through_difference");
              hist += "-diff";
            }
          }
          if (r.p(0.1)) { s.setWarmStart(r.p(0.3) ? NULL : use); if (exposed) l.solved = false; }
          hist += "-set";
          if (exposed && !w.x.empty() && r.p(0.8)) {
            ok = s.setWarmStart(use);
            if (r.p(0.5)) routed.reset();
            if (!ok) bad("warm-start", "a warm start taken from the interface is refused");
            std::vector<double> seen;
            bool first = true;
            t->onCall = [&](long) { first = false; };
            bool plain = !retries;
            hist += "-resolve";
            if (l.fp) { s.switchToOriginalProblem(); l.fp = false; }
            e = guarded([&] { s.resolve(); });
            t->onCall = nullptr;
            l.solved = e.empty();
            (void)first;
            if (e.empty()) {
              judge(l, "resolve-warm");
              if (plain && s.isProvenOptimal() && s.nCallOptimizeTNLP() > 0) {
                // the starting point handed to the solver is the stored one
                const double *xi = s.problem()->x_init(), *di = s.problem()->duals_init();
                ev_obs("restored_points");
                bool same = xi != NULL && di != NULL;
                if (same) { for (int i = 0; i < M.n; i++) if (xi[i] != w.x[i]) same = false; for (size_t i = 0; i < w.d.size(); i++) if (di[i] != w.d[i]) same = false; }
                if (!same) bad("warm-start", "the solve after setWarmStart did not start from the stored point");
              }
            }
          }
        }
        break;
      }
      case 12: {  // hot start
        op = "hotstart"; hist += op;
        if (l.fp) { s.switchToOriginalProblem(); l.fp = false; }
        if (!l.solved || !l.wsFresh || !(l.st & 1)) { e = guarded([&] { s.initialSolve(); }); if (!e.empty()) { l.solved = false; break; } l.solved = true; if (!s.isProvenOptimal()) break; }
        std::vector<double> lo = l.lo, hi = l.hi;
        e = guarded([&] { s.markHotStart(); });
        if (!e.empty()) break;
        ev_obs("hot_starts");
        if (!boundsOk(l, "markHotStart")) return;
        for (int q = r.i(1, 4); q > 0; q--) {
          for (int z = r.i(1, 2); z > 0; z--) changeBound(l);
          hist += " solveFromHotStart";
          e = guarded([&] { s.solveFromHotStart(); });
          if (e.empty()) { judge(l, "solveFromHotStart"); if (!boundsOk(l, "solveFromHotStart")) return; }
          if (r.p(0.6)) { l.lo = lo; l.hi = hi; s.setColLower(lo.data()); s.setColUpper(hi.data()); }
        }
        s.unmarkHotStart();
        l.lo = lo; l.hi = hi;
        s.setColLower(lo.data()); s.setColUpper(hi.data());
        l.solved = false;
        break;
      }
      case 13: {  // copies
        op = "clone"; hist += op;
        if ((int)L.size() < 4) {
          std::unique_ptr<Live> n(new Live);
          OsiSolverInterface *cl = s.clone();
          n->si = dynamic_cast<OsiTMINLPInterface *>(cl);
          if (!n->si) { bad("clone-type", "clone() is not an OsiTMINLPInterface"); delete cl; return; }
          n->own.reset(n->si);
          n->lo = l.lo; n->hi = l.hi; n->fp = l.fp; n->wsFresh = l.wsFresh; n->solved = l.solved;
          snap(*n, M);
          snap(l, M);
          ev_obs("clones");
          if (n->x != l.x || n->d != l.d || n->obj != l.obj || n->st != l.st || n->g != l.g) bad("clone-differs", fmt("a fresh clone reports another result: status %d/%d obj %.12g/%.12g", n->st, l.st, n->obj, l.obj) + " x " + vs(n->x) + vs(l.x) + fmt(" duals %d/%d activities %d/%d", (int)n->d.size(), (int)l.d.size(), (int)n->g.size(), (int)l.g.size()));
          std::unique_ptr<CoinWarmStart> w1(s.getWarmStart()), w2(n->si->getWarmStart());
          IpoptWarmStart *i1 = dynamic_cast<IpoptWarmStart *>(w1.get()), *i2 = dynamic_cast<IpoptWarmStart *>(w2.get());
          if ((i1 && i1->empty()) != (i2 && i2->empty())) bad("clone-differs", "the clone has no warm start of the original");
          L.push_back(std::move(n));
        } else {
          int q = r.i(1, (int)L.size() - 1);
          L.erase(L.begin() + q);
          hist += fmt("-delete%d", q);
          for (auto &x : L) if (!boundsOk(*x, "deleting a clone")) return;
          continue;
        }
        break;
      }
      case 14: {  // robustness and cost re-solves, random start
        int q = r.i(0, 2);
        op = q == 0 ? "resolveForCost" : q == 1 ? "resolveForRobustness" : "randomStartingPoint"; hist += op;
        if (l.fp) { s.switchToOriginalProblem(); l.fp = false; }
        if (q == 2) { s.randomStartingPoint(); l.solved = false; ev_obs("random_points");
          if (s.problem()->x_init()) for (int i = 0; i < M.n; i++) { double v = s.problem()->x_init()[i]; if (!(v >= l.lo[i] && v <= l.hi[i])) { bad("random-point-outside-bounds", fmt("x%d=%.9g not in [%.9g,%.9g]", i, v, l.lo[i], l.hi[i])); break; } }
          break; }
        if (!l.solved || !l.wsFresh) { e = guarded([&] { s.initialSolve(); }); if (!e.empty()) { l.solved = false; break; } l.solved = true; }
        if (q == 0) { e = guarded([&] { s.resolveForCost(r.i(0, 3), r.p(0.5)); }); ev_obs("cost_resolves"); }
        else { e = guarded([&] { s.resolveForRobustness(r.i(0, 2)); }); ev_obs("robustness_resolves"); }
        l.solved = e.empty();
        if (e.empty()) judge(l, op.c_str());
        break;
      }
      default: {  // distance problems
        op = "distance"; hist += op;
        std::vector<int> ind; std::vector<double> xb;
        int norm = 2;
        std::vector<double> p = rndPoint(l);
        for (int i = 0; i < M.n; i++) if (r.p(0.7)) { ind.push_back(i); xb.push_back(M.type[i] ? std::round(p[i]) : p[i]); }
        if (r.p(0.7)) {
          // objective a*distance^2 + s*f
          double al = r.p(0.6) ? 1. : r.nice(0, 1), sg = r.p(0.6) ? 0. : r.nice(0, 1);
          bool cut = r.p(0.3);
          double cutoff = 0, v = 0;
          if (cut) { std::vector<double> y = rndPoint(l); if (!M.f.eval(y.data(), cutoff)) cut = false; }
          if (cut) { al = 1; sg = 0; e = guarded([&] { v = s.solveFeasibilityProblem(ind.size(), xb.data(), ind.data(), norm, cutoff); }); }
          else e = guarded([&] { v = s.solveFeasibilityProblem(ind.size(), xb.data(), ind.data(), al, sg, norm); });
          l.solved = false;
          if (e.empty() && s.isProvenOptimal()) {
            l.solved = true; l.wsFresh = false;
            Model D = M;
            Func fo = D.f;
            double sf = (1 - al) * sg;
            for (auto &q : D.f.lin) q.second *= sf;
            for (auto &q : D.f.terms) q.c *= sf;
            D.f.c0 *= sf;
            if (sf == 0) { D.f.lin.clear(); D.f.terms.clear(); D.f.c0 = 0; }
            for (size_t q = 0; q < ind.size(); q++) { Term tm; tm.c = 100 * al; tm.phi = SQ; tm.b = -xb[q]; tm.idx = {ind[q]}; tm.a = {1.}; D.f.terms.push_back(tm); }
            if (cut) { D.g.push_back(fo); D.m++; D.gl.push_back(-INFB); D.gu.push_back(cutoff); }
            D.finish();
            std::vector<double> y(s.getColSolution(), s.getColSolution() + M.n), x;
            double f, obj, mg, lam;
            D.f.eval(y.data(), f);
            if (std::fabs(f - v) > 1e-6 * (1 + std::fabs(f))) bad("distance-mismatch", fmt("returned %.10g, distance of the solution %.10g (norm %d a=%g s=%g)", v, f, norm, al, sg));
            int ref = solveConvexNlp(D, l.lo, l.hi, obj, x, mg, lam);
            if (ref == 0) { ev_obs("distances_compared"); double tol = 1e-3 * (1 + std::fabs(obj)) + 1e-4 * lam + (cut ? 1e-3 : 0); if (f > obj + tol) bad("distance-not-minimal", fmt("distance %.10g, reference %.10g cutoff %d %.9g", f, obj, (int)cut, cutoff)); }
          }
        } else {
          s.switchToFeasibilityProblem(ind.size(), xb.data(), ind.data(), 1., 0., norm);
          l.fp = true;
          hist += "-switch";
          if (r.p(0.6)) { s.switchToOriginalProblem(); l.fp = false; }
        }
        break;
      }
    }
    if (!e.empty()) { ev_obs("nlp_exceptions"); ev_state("nlp_exception", e.substr(0, 60)); hist += "!"; }
    ev_obs("history_steps"); if (a.count("verbose")) { ev_note(ctx + hist); }
    for (size_t q = 0; q < L.size(); q++) {
      if (!boundsOk(*L[q], op.c_str())) return;
      if ((int)q == wi || (op == "clone" && q + 1 == L.size())) { snap(*L[q], M); continue; }
      Live o; o.si = L[q]->si; o.solved = L[q]->solved;
      snap(o, M);
      ev_obs("bystanders_checked");
      if (o.x != L[q]->x || o.d != L[q]->d || o.obj != L[q]->obj || o.st != L[q]->st || o.g != L[q]->g)
        { bad("copy-dependent", fmt("%s on interface %d changed the results of interface %d", op.c_str(), wi, (int)q)); return; }
    }
  }
  // destroy in random order
  while (L.size() > 1) { int q = r.i(1, (int)L.size() - 1); L.erase(L.begin() + q); }
  boundsOk(*L[0], "destruction of the clones");
  t->flushContract();
}

// Warm starts on their own: copies, differences, application, flushing and destruction in any order
static void wstartCase(uint64_t seed, long k, const std::map<std::string, std::string> &) {
  Rng r(mix(mix(seed, 67), k));
  int n = r.i(1, 9), m = r.p(0.1) ? 0 : r.i(1, 60), nd = 2 * n + m;
  struct W { std::unique_ptr<IpoptWarmStart> w; std::vector<double> x, d; };
  std::vector<W> ws;
  std::string hist = fmt("n=%d m=%d", n, m);
  auto bad = [&](const std::string &d) { ev_viol("warm-start-data", d + " history: " + hist); };
  auto same = [&](const IpoptWarmStart &w, const std::vector<double> &x, const std::vector<double> &d) {
    if (w.primalSize() != (int)x.size() || w.dualSize() != (int)d.size()) return false;
    for (size_t i = 0; i < x.size(); i++) if (w.primal()[i] != x[i]) return false;
    for (size_t i = 0; i < d.size(); i++) if (w.dual()[i] != d[i]) return false;
    return true;
  };
  auto fresh = [&](const W *like) {
    W q;
    q.x.resize(n); q.d.resize(nd);
    double pc = r.u();
    for (int i = 0; i < n; i++) q.x[i] = like && r.p(pc) ? like->x[i] : r.u(-9, 9);
    for (int i = 0; i < nd; i++) q.d[i] = like && r.p(pc) ? like->d[i] : r.p(0.3) ? 0 : r.u(0, 9);
    q.w.reset(new IpoptWarmStart(n, nd, q.x.data(), q.d.data()));
    hist += fmt(" new%d", (int)ws.size());
    return q;
  };
  ws.push_back(fresh(nullptr));
  for (int step = 0; step < 14; step++) {
    int i = r.i(0, (int)ws.size() - 1), j = r.i(0, (int)ws.size() - 1);
    switch (r.i(0, 4)) {
      case 0: ws.push_back(fresh(&ws[i])); break;
      case 1: {
        W q;
        CoinWarmStart *c = NULL;
        switch (r.i(0, 2)) { case 0: c = ws[i].w->clone(); break; case 1: c = new IpoptWarmStart(*ws[i].w, r.p(0.5)); break; default: c = new IpoptWarmStart(static_cast<const CoinWarmStartPrimalDual &>(*ws[i].w)); break; }
        q.w.reset(dynamic_cast<IpoptWarmStart *>(c));
        if (!q.w) { bad("a copy has another type"); delete c; return; }
        q.x = ws[i].x; q.d = ws[i].d;
        if (q.w->empty() != ws[i].w->empty()) bad("a copy differs in being empty");
        ev_obs("warm_copies");
        hist += fmt(" copy%d", i);
        ws.push_back(std::move(q));
        break;
      }
      case 2: case 3: {  // store i as difference against j, perhaps through a copy, perhaps after the originals died; apply to a copy of j
        std::unique_ptr<CoinWarmStartDiff> df(ws[i].w->generateDiff(ws[j].w.get()));
        if (!df) { bad("generateDiff returned NULL"); return; }
        std::unique_ptr<CoinWarmStart> base(ws[j].w->clone());
        std::vector<double> x = ws[i].x, d = ws[i].d;
        hist += fmt(" diff%d-%d", i, j);
        if (r.p(0.5)) { std::unique_ptr<CoinWarmStartDiff> c(df->clone()); std::swap(c, df); }
        if (r.p(0.3) && ws.size() > 1) { ws.erase(ws.begin() + i); hist += "-kill"; }
        base->applyDiff(df.get());
        df.reset();
        W q;
        q.w.reset(dynamic_cast<IpoptWarmStart *>(base.release()));
        ev_obs("differences_applied");
        if (!q.w || !same(*q.w, x, d)) { bad("difference re-applied does not give the stored warm start"); return; }
        if (q.w->empty()) bad("difference re-applied gives an empty warm start");
        q.x = x; q.d = d;
        ws.push_back(std::move(q));
        break;
      }
      default:
        if (ws.size() > 1) { ws.erase(ws.begin() + i); hist += fmt(" kill%d", i); }
        else { W q = fresh(nullptr); IpoptWarmStart c(*q.w); c.flushPoint(); hist += " flush"; if (c.primalSize() || c.dualSize()) bad("flushPoint keeps values"); if (!same(*q.w, q.x, q.d)) bad("flushing a copy changed the original"); }
    }
    for (auto &w : ws) { ev_obs("warm_checked"); if (!same(*w.w, w.x, w.d)) { bad("a warm start changed without being touched"); return; } }
  }
}
static ModeReg r2("wstart", wstartCase);
static ModeReg r1("iface", ifaceCase);
}  // namespace mon
