// A small quadratically constrained MINLP with exact derivatives, for the demonstrations.
#ifndef MINI_HPP
#define MINI_HPP
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include "BonTMINLP.hpp"
#include "BonBonminSetup.hpp"
#include "BonCbc.hpp"
#include "BonOsiTMINLPInterface.hpp"
using namespace Bonmin;
using namespace Ipopt;
struct Q {  // c0 + c'x + sum q_ij x_i x_j (i>=j, as written)
  double c0 = 0;
  std::map<int, double> c;
  std::map<std::pair<int, int>, double> q;
  Q() {}
  Q(double k, std::map<int, double> lin, std::map<std::pair<int, int>, double> quad = {}) : c0(k), c(lin), q(quad) {}
  double val(const double *x) const {
    double v = c0;
    for (auto &t : c) v += t.second * x[t.first];
    for (auto &t : q) v += t.second * x[t.first.first] * x[t.first.second];
    return v;
  }
  std::map<int, double> grad(const double *x) const {
    std::map<int, double> g = c;
    for (auto &t : q) {
      g[t.first.first] += t.second * x[t.first.second];
      g[t.first.second] += t.second * x[t.first.first];
    }
    return g;
  }
};
struct Mini : public TMINLP {
  int n = 0;
  std::vector<int> type;
  std::vector<double> xl, xu, x0, gl, gu;
  Q f;
  std::vector<Q> g;
  bool fortran = false, linObj = false;
  SosInfo *sos = nullptr;
  BranchingInfo *br = nullptr;
  std::map<std::pair<int, int>, int> hpos;
  // results
  int finals = 0, fstatus = -99;
  bool fhas = false;
  std::vector<double> fx;
  double fobj = 0;
  long evals = 0;
  std::function<bool(const char *, const double *)> onEval;  // return false: the evaluation fails
  void var(int t, double l, double u, double s) { type.push_back(t); xl.push_back(l); xu.push_back(u); x0.push_back(s); n++; }
  void row(double l, const Q &q, double u) { g.push_back(q); gl.push_back(l); gu.push_back(u); }
  bool ev(const char *w, const double *x) { evals++; return onEval ? onEval(w, x) : true; }
  void struc() {
    hpos.clear();
    auto add = [&](const Q &q) {
      for (auto &t : q.q) {
        std::pair<int, int> p(std::max(t.first.first, t.first.second), std::min(t.first.first, t.first.second));
        if (!hpos.count(p)) { int k = (int)hpos.size(); hpos[p] = k; }
      }
    };
    add(f);
    for (auto &r : g) add(r);
  }
  bool get_nlp_info(Index &nn, Index &m, Index &nj, Index &nh, TNLP::IndexStyleEnum &st) {
    struc();
    nn = n; m = (int)g.size(); nj = 0;
    std::vector<double> z(n, 0.);
    for (auto &r : g) nj += (int)r.grad(z.data()).size();
    nh = (int)hpos.size();
    st = fortran ? TNLP::FORTRAN_STYLE : TNLP::C_STYLE;
    return true;
  }
  bool get_variables_types(Index, VariableType *t) { for (int i = 0; i < n; i++) t[i] = type[i] == 0 ? CONTINUOUS : type[i] == 1 ? BINARY : INTEGER; return true; }
  bool get_variables_linearity(Index, TNLP::LinearityType *t) {
    for (int i = 0; i < n; i++) t[i] = TNLP::LINEAR;
    struc();
    for (auto &h : hpos) t[h.first.first] = t[h.first.second] = TNLP::NON_LINEAR;
    return true;
  }
  bool get_constraints_linearity(Index, TNLP::LinearityType *t) { for (size_t i = 0; i < g.size(); i++) t[i] = g[i].q.empty() ? TNLP::LINEAR : TNLP::NON_LINEAR; return true; }
  bool get_bounds_info(Index, Number *l, Number *u, Index, Number *a, Number *b) {
    for (int i = 0; i < n; i++) l[i] = xl[i], u[i] = xu[i];
    for (size_t i = 0; i < g.size(); i++) a[i] = gl[i], b[i] = gu[i];
    return true;
  }
  bool get_starting_point(Index, bool, Number *x, bool iz, Number *zl, Number *zu, Index m, bool il, Number *lam) {
    for (int i = 0; i < n; i++) { x[i] = x0[i]; if (iz) zl[i] = zu[i] = 0; }
    if (il) for (int i = 0; i < m; i++) lam[i] = 0;
    return true;
  }
  bool eval_f(Index, const Number *x, bool, Number &v) { v = f.val(x); return ev("f", x); }
  bool eval_grad_f(Index, const Number *x, bool, Number *gr) { for (int i = 0; i < n; i++) gr[i] = 0; for (auto &t : f.grad(x)) gr[t.first] = t.second; return ev("grad", x); }
  bool eval_g(Index, const Number *x, bool, Index, Number *v) { for (size_t i = 0; i < g.size(); i++) v[i] = g[i].val(x); return ev("g", x); }
  bool eval_jac_g(Index, const Number *x, bool, Index, Index, Index *ir, Index *jc, Number *v) {
    std::vector<double> z(n, 0.);
    int k = 0;
    for (size_t i = 0; i < g.size(); i++)
      for (auto &t : g[i].grad(v ? x : z.data())) {
        if (v) v[k] = t.second; else { ir[k] = (int)i + fortran; jc[k] = t.first + fortran; }
        k++;
      }
    return v ? ev("jac", x) : true;
  }
  bool eval_h(Index, const Number *x, bool, Number of, Index, const Number *lam, bool, Index, Index *ir, Index *jc, Number *v) {
    if (!v) { for (auto &h : hpos) { ir[h.second] = h.first.first + fortran; jc[h.second] = h.first.second + fortran; } return true; }
    for (size_t i = 0; i < hpos.size(); i++) v[i] = 0;
    auto add = [&](const Q &q, double w) {
      for (auto &t : q.q) {
        std::pair<int, int> p(std::max(t.first.first, t.first.second), std::min(t.first.first, t.first.second));
        v[hpos[p]] += w * t.second * (p.first == p.second ? 2 : 1);
      }
    };
    add(f, of);
    for (size_t i = 0; i < g.size(); i++) add(g[i], lam[i]);
    return ev("h", x);
  }
  bool eval_gi(Index, const Number *x, bool, Index i, Number &v) { v = g[i].val(x); return ev("gi", x); }
  bool eval_grad_gi(Index, const Number *x, bool, Index i, Index &ne, Index *jc, Number *v) {
    std::vector<double> z(n, 0.);
    int k = 0;
    for (auto &t : g[i].grad(v ? x : z.data())) { if (v) v[k] = t.second; else jc[k] = t.first + fortran; k++; }
    ne = k;
    return v ? ev("gradgi", x) : true;
  }
  void finalize_solution(TMINLP::SolverReturn st, Index, const Number *x, Number o) {
    finals++; fstatus = st; fhas = x != nullptr; fobj = o;
    fx.clear();
    if (x) fx.assign(x, x + n);
  }
  const BranchingInfo *branchingInfo() const { return br; }
  const SosInfo *sosConstraints() const { return sos; }
  bool hasLinearObjective() { return linObj; }
  // worst violation of bounds, rows and integrality
  double viol(const std::vector<double> &x) const {
    double v = 0;
    for (int i = 0; i < n; i++) {
      v = std::max(v, std::max(xl[i] - x[i], x[i] - xu[i]));
      if (type[i]) v = std::max(v, std::fabs(x[i] - std::floor(x[i] + .5)));
    }
    for (size_t i = 0; i < g.size(); i++) { double t = g[i].val(x.data()); v = std::max(v, std::max(gl[i] - t, t - gu[i])); }
    return v;
  }
};
struct Res { bool threw = false; std::string what; int status = -9; double obj = 0, bound = 0; bool has = false; std::vector<double> x; int nodes = 0; };
inline Res solve(SmartPtr<Mini> p, const std::string &opts, std::function<void(Bab &, BonminSetup &)> before = {}) {
  Res r;
  try {
    BonminSetup b;
    b.initializeOptionsAndJournalist();
    b.readOptionsString("bonmin.bb_log_level 0\nbonmin.nlp_log_level 0\nprint_level 0\nsb yes\nbonmin.milp_log_level 0\nbonmin.oa_log_level 0\nbonmin.fp_log_level 0\nbonmin.lp_log_level 0\n" + opts);
    b.initialize(GetRawPtr(p));
    Bab bb;
    if (before) before(bb, b);
    bb(b);
    r.status = bb.mipStatus(); r.obj = bb.bestObj(); r.bound = bb.bestBound(); r.nodes = bb.numNodes();
    if (bb.bestSolution()) { r.has = true; r.x.assign(bb.bestSolution(), bb.bestSolution() + p->n); }
  } catch (CoinError &e) { r.threw = true; r.what = e.message(); }
  catch (TNLPSolver::UnsolvedError *e) { r.threw = true; r.what = "unsolved"; }
  catch (OsiTMINLPInterface::SimpleError &e) { r.threw = true; r.what = e.message(); }
  catch (...) { r.threw = true; r.what = "?"; }
  return r;
}
#define CHECK(c, ...) do { if (!(c)) { fprintf(stderr, "DEMO FAILED: %s: ", #c); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); _Exit(1); } } while (0)
#endif
