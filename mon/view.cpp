// The NLP-level problem objects (plain view, feasibility-pump NLP, problem with quadratic cuts, linear-objective
// reformulation) compared, after random histories of modifications, with an independent description of what they must be.
#include "solve.hpp"
#include "BonTMINLP2TNLP.hpp"
#include "BonTNLP2FPNLP.hpp"
#include "BonTMINLP2Quad.hpp"
#include "BonTMINLPLinObj.hpp"
#include "BonQuadCut.hpp"
#include <memory>
using namespace Bonmin;
using namespace Ipopt;
namespace mon {
typedef std::vector<double> V;
struct Fn {  // value and dense gradient
  std::function<bool(const V &, double &)> f;
  std::function<bool(const V &, V &)> g;
  int lin = -1;  // 1 linear, 0 nonlinear, -1 unknown
};
static Fn ofFunc(const Func &F) {
  Fn r;
  r.f = [F](const V &x, double &v) { return F.eval(x.data(), v); };
  r.g = [F](const V &x, V &g) { V t(x.size()); if (!F.grad(x.data(), t)) return false; g = t; g.resize(x.size()); return true; };
  r.lin = F.linear();
  return r;
}
struct Exp {
  int n = 0;
  bool fortran = false;
  V xl, xu, gl, gu;
  Fn obj;
  std::vector<Fn> rows;
  std::vector<V> startX;  // acceptable starting points (empty: not checked)
  bool gi = true;
};
static Exp ofModel(const Model &M) {
  Exp e;
  e.n = M.n; e.fortran = M.fortran; e.xl = M.xl; e.xu = M.xu; e.gl = M.gl; e.gu = M.gu;
  e.obj = ofFunc(M.f);
  for (auto &g : M.g) e.rows.push_back(ofFunc(g));
  e.startX = {M.x0};
  return e;
}
static bool near(double a, double b, double t) { return a == b || std::fabs(a - b) <= t * (1 + std::fabs(a) + std::fabs(b)); }
static bool sameInf(double a, double b) { return a == b || (a >= 1e19 && b >= 1e19) || (a <= -1e19 && b <= -1e19); }
template <class T> struct Arr {  // exact-size heap array, so that any overrun is an address error
  std::unique_ptr<T[]> p; size_t n;
  Arr(size_t n_, T v) : p(new T[n_]), n(n_) { std::fill(p.get(), p.get() + n, v); }
  T *get() { return p.get(); }
  T &operator[](size_t i) { return p[i]; }
};
static MTMINLP *g_user = nullptr;  // the user problem behind the views of the current case
// an evaluation during which the user's callback failed must report the failure (C14)
static void faultsPropagate(TNLP &t, const V &x, Rng &r, const std::string &pre, const std::string &ctx) {
  if (!g_user) return;
  Index n, m, nj, nh; TNLP::IndexStyleEnum st;
  t.get_nlp_info(n, m, nj, nh, st);
  if ((int)x.size() != n) return;
  TMINLP2TNLP *tt = dynamic_cast<TMINLP2TNLP *>(&t);
  static const char *nm[] = {"eval_f", "eval_grad_f", "eval_g", "eval_jac_g", "eval_h", "eval_gi", "eval_grad_gi"};
  for (int w = 0; w < 7; w++)
    for (int nth = 1; nth <= 2; nth++) {
      if ((w == 2 || w == 3 || w > 4) && m == 0) continue;
      if (w > 4 && !tt) continue;
      if (w < 2 && pre == "quadcuts") continue;  // a replaced objective does not need the user's
      Arr<double> out(std::max({n, m, nj, nh, 1}), 0.);
      Arr<int> idx(n, 0);
      V lam(m, r.p(0.3) ? 0. : 1.);
      double f = 0;
      bool ok = true;
      int ng = 0;
      g_user->fault.kind = FaultPlan::ANY;
      g_user->fault.from = g_user->totalCalls + nth, g_user->fault.to = nth == 1 && r.p(0.5) ? g_user->totalCalls + 100 : g_user->fault.from;
      g_user->faultsInjected = 0;
      int row = m ? r.i(0, m - 1) : 0;
      if (w == 6) {
        g_user->fault.kind = 0;
        tt->eval_grad_gi(n, x.data(), true, row, ng, idx.get(), nullptr);
        long d = g_user->fault.to - g_user->fault.from;
        g_user->fault.kind = FaultPlan::ANY, g_user->fault.from = g_user->totalCalls + nth, g_user->fault.to = g_user->fault.from + d;
      }
      if (w == 0) ok = t.eval_f(n, x.data(), true, f);
      if (w == 1) ok = t.eval_grad_f(n, x.data(), true, out.get());
      if (w == 2) ok = t.eval_g(n, x.data(), true, m, out.get());
      if (w == 3) ok = t.eval_jac_g(n, x.data(), true, m, nj, nullptr, nullptr, out.get());
      if (w == 4) ok = t.eval_h(n, x.data(), true, r.p(0.2) ? 0. : 1., m, lam.data(), true, nh, nullptr, nullptr, out.get());
      if (w == 5) ok = tt->eval_gi(n, x.data(), true, row, f);
      if (w == 6) ok = tt->eval_grad_gi(n, x.data(), true, row, ng, nullptr, out.get());
      bool hit = g_user->faultsInjected > 0;
      g_user->fault.kind = 0;
      if (hit) {
        ev_obs("failures_propagated");
        if (ok) { ev_viol("fault-ignored:" + pre, fmt("%s reports success although the user's callback failed; ", nm[w]) + ctx); return; }
      }
    }
}
static void checkTNLP(TNLP &t, const Exp &e, const std::vector<V> &pts, Rng &r, const std::string &pre, const std::string &ctx) {
  const double nan = std::nan("");
  auto bad = [&](const char *key, const std::string &d) { ev_viol(pre + ":" + key, ctx + " " + d); };
  Index n = -1, m = -1, nj = -1, nh = -1; TNLP::IndexStyleEnum st;
  if (!t.get_nlp_info(n, m, nj, nh, st)) return bad("info", "get_nlp_info failed");
  ev_obs("views_checked");
  if (n != e.n || m != (int)e.rows.size()) return bad("dimension", fmt("n %d expected %d, m %d expected %d", n, e.n, m, (int)e.rows.size()));
  if ((st == TNLP::FORTRAN_STYLE) != e.fortran) return bad("index-style", "");
  int off = e.fortran;
  {
    Arr<double> xl(n, nan), xu(n, nan), gl(m, nan), gu(m, nan);
    t.get_bounds_info(n, xl.get(), xu.get(), m, gl.get(), gu.get());
    for (int j = 0; j < n; j++) if (!sameInf(xl[j], e.xl[j]) || !sameInf(xu[j], e.xu[j])) return bad("variable-bounds", fmt("x%d [%.17g,%.17g] expected [%.17g,%.17g]", j, xl[j], xu[j], e.xl[j], e.xu[j]));
    for (int i = 0; i < m; i++) {
      auto ok = [](double a, double b) { return sameInf(a, b) || near(a, b, 1e-13); };
      if (!ok(gl[i], e.gl[i]) || !ok(gu[i], e.gu[i])) return bad("row-bounds", fmt("row %d [%.17g,%.17g] expected [%.17g,%.17g]", i, gl[i], gu[i], e.gl[i], e.gu[i]));
    }
  }
  if (!e.startX.empty()) {
    Arr<double> x(n, nan);
    if (!t.get_starting_point(n, true, x.get(), false, nullptr, nullptr, m, false, nullptr)) return bad("start", "get_starting_point failed");
    bool ok = false;
    for (auto &s : e.startX) { bool eq = true; for (int j = 0; j < n; j++) if (!(x[j] == s[j])) eq = false; ok |= eq; }
    ev_obs("starts_checked");
    if (!ok) { std::string d; for (int j = 0; j < n; j++) d += fmt(" %.9g/%.9g", x[j], e.startX[0][j]); return bad("start", "starting point differs from the one set:" + d); }
  }
  if (m) {
    Arr<TNLP::LinearityType> lt(m, TNLP::LINEAR), l2(m, TNLP::NON_LINEAR);
    if (t.get_constraints_linearity(m, lt.get()) && t.get_constraints_linearity(m, l2.get()))
      for (int i = 0; i < m; i++) {
        if (lt[i] != l2[i]) return bad("linearity", fmt("row %d not filled", i));
        if (lt[i] == TNLP::LINEAR && e.rows[i].lin == 0) return bad("linearity", fmt("nonlinear row %d declared linear", i));
      }
  }
  Arr<int> jr(nj, -77), jc(nj, -77), hr(nh, -77), hc(nh, -77);
  if (!t.eval_jac_g(n, nullptr, false, m, nj, jr.get(), jc.get(), nullptr)) return bad("jac", "structure request failed");
  for (int k = 0; k < nj; k++) if (jr[k] - off < 0 || jr[k] - off >= m || jc[k] - off < 0 || jc[k] - off >= n) return bad("jac-structure", fmt("entry %d at (%d,%d) with m=%d n=%d offset %d", k, jr[k], jc[k], m, n, off));
  if (!t.eval_h(n, nullptr, false, 1, m, nullptr, false, nh, hr.get(), hc.get(), nullptr)) return bad("hess", "structure request failed");
  for (int k = 0; k < nh; k++) if (hr[k] - off < 0 || hr[k] - off >= n || hc[k] - off < 0 || hc[k] - off >= n) return bad("hess-structure", fmt("entry %d at (%d,%d) n=%d", k, hr[k], hc[k], n));
  for (auto &x : pts) {
    double f0; V g0;
    if (!e.obj.f(x, f0) || !e.obj.g(x, g0)) continue;
    bool okp = true;
    V rv(m); std::vector<V> rg(m);
    for (int i = 0; i < m; i++) okp &= e.rows[i].f(x, rv[i]) && e.rows[i].g(x, rg[i]);
    if (!okp) continue;
    ev_obs("points_checked");
    int order = r.i(0, 2);  // which evaluation sees the new point first
    bool nx = true;
    double f = nan;
    Arr<double> gf(n, nan), g(m, nan), jv(nj, nan);
    for (int step = 0; step < 4; step++) {
      int w = (step + order) % 4;
      bool ok = true;
      if ((w == 2 && m == 0) || (w == 3 && nj == 0)) continue;
      if (w == 0) ok = t.eval_f(n, x.data(), nx, f);
      if (w == 1) ok = t.eval_grad_f(n, x.data(), nx, gf.get());
      if (w == 2) ok = t.eval_g(n, x.data(), nx, m, g.get());
      if (w == 3) ok = t.eval_jac_g(n, x.data(), nx, m, nj, nullptr, nullptr, jv.get());
      nx = r.p(0.2);
      if (!ok) return bad("eval", fmt("evaluation %d reports an error at a point of the domain", w));
    }
    if (!near(f, f0, 1e-9)) return bad("objective", fmt("value %.15g expected %.15g", f, f0));
    double sc = 1;
    for (int j = 0; j < n; j++) sc = std::max(sc, std::fabs(g0[j]));
    for (int j = 0; j < n; j++) if (!(std::fabs(gf[j] - g0[j]) <= 1e-8 * sc)) return bad("gradient", fmt("component %d is %.12g expected %.12g", j, gf[j], g0[j]));
    std::vector<V> J(m, V(n, 0.));
    for (int k = 0; k < nj; k++) J[jr[k] - off][jc[k] - off] += jv[k];
    for (int i = 0; i < m; i++) {
      if (!near(g[i], rv[i], 1e-9)) return bad("row-value", fmt("row %d is %.15g expected %.15g", i, g[i], rv[i]));
      double s2 = 1;
      for (int j = 0; j < n; j++) s2 = std::max(s2, std::fabs(rg[i][j]));
      for (int j = 0; j < n; j++) if (!(std::fabs(J[i][j] - rg[i][j]) <= 1e-8 * s2)) return bad("jacobian", fmt("row %d column %d is %.12g expected %.12g", i, j, J[i][j], rg[i][j]));
    }
    // Hessian of the Lagrangian against central differences of the expected gradient
    double of = r.p(0.2) ? 0. : r.u(-1, 2);
    V lam(m);
    for (auto &l : lam) l = r.p(0.2) ? 0. : r.u(-2, 2);
    V H(n * n, 0.), Hb(n * n, 0.);
    bool fd = true;
    for (int j = 0; j < n && fd; j++)
      for (int half = 0; half < 2; half++) {
        double h = (half ? 0.5e-5 : 1e-5) * (1 + std::fabs(x[j]));
        V acc(n, 0.);
        for (int s = -1; s <= 1; s += 2) {
          V y = x, gg; y[j] += s * h;
          fd = fd && e.obj.g(y, gg);
          if (!fd) break;
          for (int k = 0; k < n; k++) acc[k] += s * of * gg[k];
          for (int i = 0; i < m && fd; i++) { fd &= e.rows[i].g(y, gg); if (fd) for (int k = 0; k < n; k++) acc[k] += s * lam[i] * gg[k]; }
        }
        for (int k = 0; k < n; k++) (half ? H : Hb)[j * n + k] = acc[k] / (2 * h);
      }
    double s0 = 1;
    for (double v : H) s0 = std::max(s0, std::fabs(v));
    for (int a = 0; a < n * n; a++) if (!(std::fabs(H[a] - Hb[a]) <= 2e-6 * s0)) fd = false;  // too curved for differences
    if (fd) {
      Arr<double> hv(nh, nan);
      if (!t.eval_h(n, x.data(), r.p(0.5), of, m, lam.data(), true, nh, nullptr, nullptr, hv.get())) return bad("eval", "Hessian evaluation reports an error at a point of the domain");
      V H2(n * n, 0.);
      for (int k = 0; k < nh; k++) {
        int a = hr[k] - off, b = hc[k] - off;
        H2[a * n + b] += hv[k];
        if (a != b) H2[b * n + a] += hv[k];
      }
      double s3 = 1;
      for (double v : H) s3 = std::max(s3, std::fabs(v));
      ev_obs("hessians_checked");
      for (int a = 0; a < n * n; a++) if (!(std::fabs(H[a] - H2[a]) <= 2e-5 * s3)) return bad("hessian", fmt("entry (%d,%d) is %.10g, differences of the gradient give %.10g", a / n, a % n, H2[a], H[a]));
    }
    if (e.gi) {
      TMINLP2TNLP *tt = dynamic_cast<TMINLP2TNLP *>(&t);
      for (int i = 0; i < m && tt; i++) {
        double gi = nan;
        if (!tt->eval_gi(n, x.data(), r.p(0.5), i, gi)) return bad("single-row", fmt("eval_gi of row %d reports an error", i));
        if (!near(gi, rv[i], 1e-9)) return bad("single-row", fmt("eval_gi of row %d is %.12g expected %.12g", i, gi, rv[i]));
        Arr<int> gc(n, -77);
        int ng = -1;
        if (!tt->eval_grad_gi(n, x.data(), r.p(0.5), i, ng, gc.get(), nullptr) || ng < 0 || ng > n) return bad("single-row", fmt("structure of the gradient of row %d: error or %d entries", i, ng));
        Arr<double> gv(ng, nan);
        if (!tt->eval_grad_gi(n, x.data(), r.p(0.5), i, ng, nullptr, gv.get())) return bad("single-row", fmt("gradient of row %d reports an error", i));
        V d(n, 0.);
        for (int k = 0; k < ng; k++) {
          if (gc[k] - off < 0 || gc[k] - off >= n) return bad("single-row", fmt("gradient of row %d has column index %d", i, gc[k]));
          d[gc[k] - off] += gv[k];
        }
        double s2 = 1;
        for (int j = 0; j < n; j++) s2 = std::max(s2, std::fabs(rg[i][j]));
        for (int j = 0; j < n; j++) if (!(std::fabs(d[j] - rg[i][j]) <= 1e-8 * s2)) return bad("single-row", fmt("gradient of row %d column %d is %.12g expected %.12g", i, j, d[j], rg[i][j]));
        ev_obs("single_rows_checked");
      }
    }
  }
  if (!pts.empty() && r.p(0.3)) {
    double v;
    bool dom = e.obj.f(pts[0], v);
    for (auto &q : e.rows) dom = dom && q.f(pts[0], v);
    if (dom) faultsPropagate(t, pts[0], r, pre, ctx);
  }
}
static V pointIn(const Exp &e, Rng &r, int n) {
  V x(n);
  for (int j = 0; j < n; j++) {
    double lo = std::max(e.xl[j], -4.), hi = std::min(e.xu[j], 4.);
    if (lo > hi) { lo = e.xl[j] > -1e10 ? e.xl[j] : e.xu[j]; hi = lo; }
    x[j] = r.u(lo, hi);
    if (r.p(0.1)) x[j] = lo;
  }
  return x;
}
static Model modelFor(uint64_t seed, long k, Rng &r) {
  GenOpts g;
  g.pInfeasible = 0.1; g.pTwoSided = 0.3; g.pNoInt = 0.1; g.pFreeRow = 0.1;
  if (r.p(0.2)) g.maxCons = 0;
  return r.p(0.4) ? genNonconvex(mix(seed, k), g) : genConvex(mix(seed, k), g);
}
// ------------------------------------------------------------------ feasibility pump NLP
static void fpCase(uint64_t seed, long k, const std::map<std::string, std::string> &) {
  const long viol0 = g_viol_count;
  Rng r(mix(mix(seed, 71), k));
  Model M = modelFor(mix(seed, 72), k, r);
  SmartPtr<MTMINLP> t = new MTMINLP(M);
  struct Flush { MTMINLP *t; ~Flush() { t->flushContract(); g_user = nullptr; } } flush{GetRawPtr(t)};
  g_user = GetRawPtr(t);
  SmartPtr<TMINLP2TNLP> base = new TMINLP2TNLP(GetRawPtr(t));
  double scaling = r.p(0.3) ? 100 : r.nice(0.5, 20);
  SmartPtr<TNLP2FPNLP> p = new TNLP2FPNLP(GetRawPtr(base), scaling);
  Exp b = ofModel(M);
  bool useObj = false, useCut = false, useLb = false;
  double cutoff = 1e300, rhs = 0, lambda = 1, sigma = 1;
  int norm = 2;
  V vals; std::vector<int> inds;
  for (int step = 0; step < 6; step++) {
    // modify
    int nmod = r.i(1, 4);
    bool haveP = !inds.empty();
    if (!haveP || r.p(0.6)) {
      inds.clear(); vals.clear();
      norm = r.i(1, 2);
      for (int j = 0; j < M.n; j++)
        if (r.p(0.6)) { inds.push_back(j); vals.push_back(r.p(0.6) ? (double)r.i(0, 1) : r.nice(-2, 3)); }
      if (inds.empty()) { inds.push_back(M.n - 1); vals.push_back(1); }
      p->set_dist_to_point_obj(inds.size(), vals.data(), inds.data());
    }
    for (int q = 0; q < nmod; q++) {
      switch (r.i(0, 6)) {
        case 0: p->set_use_feasibility_pump_objective(useObj = r.p(0.6)); break;
        case 1: p->set_use_cutoff_constraint(useCut = r.p(0.6)); break;
        case 2: p->set_use_local_branching_constraint(useLb = r.p(0.6)); break;
        case 3: p->setSigma(sigma = r.p(0.3) ? 0. : r.nice(0, 3)); p->setLambda(lambda = r.p(0.3) ? 1. : r.p(0.1) ? 0. : r.u()); break;
        case 4: p->setObjectiveScaling(scaling = r.nice(0.5, 40)); break;
        case 5: base->SetVariableBounds(r.i(0, M.n - 1), 0, 1); break;
        case 6: { // rebuild on top of the same problem, taking the parameters of the first
          SmartPtr<TNLP2FPNLP> p2 = new TNLP2FPNLP(GetRawPtr(base), p);
          p = p2;
          break;
        }
      }
    }
    if (step == 0 || r.p(0.4)) { p->set_use_feasibility_pump_objective(useObj = r.p(0.7)); p->set_use_cutoff_constraint(useCut = r.p(0.5)); p->set_use_local_branching_constraint(useLb = r.p(0.5)); }
    p->setNorm(norm);
    p->setLambda(lambda); p->setSigma(sigma);
    double c = r.p(0.1) ? 0. : r.nice(-20, 20);
    p->set_cutoff(c);
    cutoff = c;
    rhs = r.i(0, 4);
    p->set_rhs_local_branching_constraint(rhs);
    for (int j = 0; j < M.n; j++) { b.xl[j] = base->x_l()[j]; b.xu[j] = base->x_u()[j]; }
    // expected
    Exp e = b;
    Fn f0 = b.obj;
    if (useObj) {
      double la = lambda, si = sigma, sc = scaling; int no = norm; V va = vals; std::vector<int> in = inds;
      e.obj.f = [=](const V &x, double &v) {
        double f = 0, d = 0;
        if (!f0.f(x, f)) return false;
        for (size_t q = 0; q < in.size(); q++) d += no == 2 ? (x[in[q]] - va[q]) * (x[in[q]] - va[q]) : (va[q] <= 0.1 ? x[in[q]] : 1 - x[in[q]]);
        v = sc * la * d + (1 - la) * si * f;
        return true;
      };
      e.obj.g = [=](const V &x, V &g) {
        if (!f0.g(x, g)) return false;
        for (auto &y : g) y *= (1 - la) * si;
        for (size_t q = 0; q < in.size(); q++) g[in[q]] += sc * la * (no == 2 ? 2 * (x[in[q]] - va[q]) : (va[q] <= 0.1 ? 1. : -1.));
        return true;
      };
    }
    if (useCut) {
      Fn cr = f0; cr.lin = -1;
      e.rows.push_back(cr);
      e.gl.push_back(-1e300);
      e.gu.push_back(cutoff > 1e-8 ? (1 - 1e-6) * cutoff : cutoff < -1e-8 ? (1 + 1e-6) * cutoff : -1e-6);
    }
    if (useLb) {
      Fn lb; lb.lin = 1;
      V va = vals; std::vector<int> in = inds;
      lb.f = [=](const V &x, double &v) { v = 0; for (size_t q = 0; q < in.size(); q++) v += va[q] <= 0.1 ? x[in[q]] : 1 - x[in[q]]; return true; };
      lb.g = [=](const V &x, V &g) { g.assign(x.size(), 0.); for (size_t q = 0; q < in.size(); q++) g[in[q]] = va[q] <= 0.1 ? 1 : -1; return true; };
      e.rows.push_back(lb);
      e.gl.push_back(-1e300); e.gu.push_back(rhs);
    }
    std::string ctx = M.name + fmt(" step %d objective %d cutoff %d local-branching %d norm %d lambda %g sigma %g scaling %g fortran %d", step, useObj, useCut, useLb, norm, lambda, sigma, scaling, M.fortran);
    ev_state("fp_config", fmt("%d%d%d%d%d", useObj, useCut, useLb, norm, M.fortran));
    std::vector<V> pts;
    for (int q = 0; q < 3; q++) pts.push_back(pointIn(b, r, M.n));
    checkTNLP(*p, e, pts, r, "fpnlp", ctx);
    if (g_viol_count != viol0) return;
    if (r.p(0.3)) {  // the duals the solver delivers for the original rows are stored
      Index n2, m2, a1, a2; TNLP::IndexStyleEnum st;
      p->get_nlp_info(n2, m2, a1, a2, st);
      V x = pts[0], zl(n2), zu(n2), g(m2), lam(m2);
      lam.reserve(1); g.reserve(1);
      for (auto &v : zl) v = r.u(); for (auto &v : zu) v = r.u(); for (auto &v : g) v = r.u(-3, 3); for (auto &v : lam) v = r.u(-3, 3);
      p->finalize_solution(Ipopt::SUCCESS, n2, x.data(), zl.data(), zu.data(), m2, g.data(), lam.data(), 3.5, nullptr, nullptr);
      ev_obs("finals_checked");
      for (int j = 0; j < M.n; j++) if (base->x_sol()[j] != x[j] || base->duals_sol()[j] != zl[j] || base->duals_sol()[M.n + j] != zu[j]) ev_viol("fpnlp:final", ctx + fmt(" stored solution differs in variable %d", j));
      for (int i = 0; i < M.m; i++) if (base->g_sol()[i] != g[i] || base->duals_sol()[2 * M.n + i] != lam[i]) ev_viol("fpnlp:final", ctx + fmt(" stored solution differs in row %d", i));
    }
  }
}
static ModeReg r1("fpnlp", fpCase);
// ------------------------------------------------------------------ plain view
struct ViewRef {  // what the view must be
  Exp e;
  V userX, xi, du;  // xi: start set, du: dual start set
  std::vector<int> type;
  V xs, ds, gs;
};
static void checkView(TMINLP2TNLP &p, ViewRef &v, const Model &M, Rng &r, const std::string &ctx) {
  v.e.startX = {v.xi.empty() ? v.userX : v.xi};
  std::vector<V> pts{pointIn(v.e, r, v.e.n)};
  checkTNLP(p, v.e, pts, r, "view", ctx);
  int n = v.e.n, m = (int)v.e.rows.size();
  auto bad = [&](const char *key, const std::string &d) { ev_viol(std::string("view:") + key, ctx + " " + d); };
  for (int j = 0; j < n; j++) {
    if (p.x_l()[j] != v.e.xl[j] || p.x_u()[j] != v.e.xu[j]) return bad("variable-bounds", fmt("accessor of x%d", j));
    if (p.orig_x_l()[j] != M.xl[j] || p.orig_x_u()[j] != M.xu[j]) return bad("original-bounds", fmt("x%d", j));
    if ((int)p.var_types()[j] != v.type[j]) return bad("types", fmt("x%d", j));
    if (p.x_init_user()[j] != v.userX[j]) return bad("start", fmt("user start x%d", j));
  }
  Arr<double> x(n, 7e77), zl(n, 7e77), zu(n, 7e77), la(m, 7e77);
  bool ok = p.get_starting_point(n, true, x.get(), true, zl.get(), zu.get(), m, true, la.get());
  if (ok != !v.du.empty()) return bad("dual-start", fmt("dual starting point %s although %s was set", ok ? "given" : "refused", v.du.empty() ? "none" : "one"));
  ev_obs(ok ? "dual_starts" : "no_dual_start");
  if (ok) {
    for (int j = 0; j < n; j++) if (zl[j] != v.du[j] || zu[j] != v.du[n + j]) return bad("dual-start", fmt("bound multipliers of x%d", j));
    for (int i = 0; i < m; i++) if (la[i] != v.du[2 * n + i]) return bad("dual-start", fmt("multiplier of row %d is %.9g expected %.9g", i, la[i], v.du[2 * n + i]));
  }
  int hx = p.has_x_init(), ex = !v.du.empty() ? 2 : v.xi.empty() ? 0 : 1;
  if (hx != ex) return bad("dual-start", fmt("has_x_init says %d expected %d", hx, ex));
  if (!v.xs.empty()) for (int j = 0; j < n; j++) if (p.x_sol()[j] != v.xs[j]) return bad("solution", fmt("x%d stored as %.12g, delivered %.12g", j, p.x_sol()[j], v.xs[j]));
  if (!v.ds.empty()) for (size_t j = 0; j < v.ds.size(); j++) if (p.duals_sol()[j] != v.ds[j]) return bad("solution", fmt("dual %d of %d stored as %.12g, delivered %.12g", (int)j, (int)v.ds.size(), p.duals_sol()[j], v.ds[j]));
  if (!v.gs.empty()) for (size_t j = 0; j < v.gs.size(); j++) if (p.g_sol()[j] != v.gs[j]) return bad("solution", fmt("activity %d", (int)j));
}
static void viewCase(uint64_t seed, long k, const std::map<std::string, std::string> &) {
  const long viol0 = g_viol_count;
  Rng r(mix(mix(seed, 73), k));
  Model M = modelFor(mix(seed, 74), k, r);
  if (r.p(0.3)) { int j = r.i(0, M.n - 1); double v = std::min(std::max(0., M.xl[j]), M.xu[j]); M.xl[j] = M.xu[j] = v; }
  SmartPtr<MTMINLP> t = new MTMINLP(M);
  struct Flush { MTMINLP *t; ~Flush() { t->flushContract(); g_user = nullptr; } } flush{GetRawPtr(t)};
  g_user = GetRawPtr(t);
  ViewRef v0;
  v0.e = ofModel(M); v0.userX = M.x0;
  for (int j = 0; j < M.n; j++) v0.type.push_back((int)(M.type[j] == 0 ? TMINLP::CONTINUOUS : M.type[j] == 1 ? TMINLP::BINARY : TMINLP::INTEGER));
  std::vector<SmartPtr<TMINLP2TNLP>> P{new TMINLP2TNLP(GetRawPtr(t))};
  std::vector<ViewRef> W{v0};
  P.reserve(8); W.reserve(8);
  std::string hist;
  for (int step = 0; step < 14; step++) {
    size_t w = r.next() % P.size();
    TMINLP2TNLP &p = *P[w];
    ViewRef &v = W[w];
    int n = M.n, m = M.m;
    auto bnd = [&](int j, double &l, double &u) {
      l = r.p(0.15) ? -1e300 : r.nice(-3, 2, 0.5); u = r.p(0.15) ? 1e300 : l < -1e20 ? 2 : l + r.nice(0, 3, 0.5);
      if (r.p(0.2) && l > -1e20) u = l;
    };
    int op = r.i(0, 12);
    hist += fmt(" %d@%d", op, (int)w);
    switch (op) {
      case 0: { V l(n), u(n); for (int j = 0; j < n; j++) bnd(j, l[j], u[j]); p.SetVariablesBounds(n, l.data(), u.data()); v.e.xl = l; v.e.xu = u; break; }
      case 1: { V l(n); double u; for (int j = 0; j < n; j++) bnd(j, l[j], u); p.SetVariablesLowerBounds(n, l.data()); v.e.xl = l; break; }
      case 2: { V u(n); double l; for (int j = 0; j < n; j++) bnd(j, l, u[j]); p.SetVariablesUpperBounds(n, u.data()); v.e.xu = u; break; }
      case 3: { int j = r.i(0, n - 1); double l, u; bnd(j, l, u); p.SetVariableBounds(j, l, u); v.e.xl[j] = l; v.e.xu[j] = u; break; }
      case 4: { int j = r.i(0, n - 1); double l, u; bnd(j, l, u); p.SetVariableLowerBound(j, l); v.e.xl[j] = l; j = r.i(0, n - 1); p.SetVariableUpperBound(j, u); v.e.xu[j] = u; break; }
      case 5: { V x(n); for (auto &y : x) y = r.u(-3, 3); p.setxInit(n, x.data()); v.xi = x; break; }
      case 6: { V d(2 * n + m); for (auto &y : d) y = r.u(-3, 3); p.setDualsInit(2 * n + m, d.data()); v.du = d; break; }
      case 7: p.resetStartingPoint(); v.xi.clear(); v.du.clear(); break;
      case 8: { V x(n); for (auto &y : x) y = r.u(-3, 3); p.Set_x_sol(n, x.data()); v.xs = x; break; }
      case 9: { V d(2 * n + m); for (auto &y : d) y = r.u(-3, 3); p.Set_dual_sol(2 * n + m, d.data()); v.ds = d; break; }
      case 10: { int j = r.i(0, n - 1); TMINLP::VariableType ty = (TMINLP::VariableType)r.i(0, 2); p.SetVariableType(j, ty); v.type[j] = ty; break; }
      case 11: {
        V x(n), zl(n), zu(n), g(m), la(m);
        la.reserve(1); g.reserve(1);
        for (auto *a : {&x, &zl, &zu, &g, &la}) for (auto &y : *a) y = r.u(-3, 3);
        double obj = r.u(-5, 5);
        p.finalize_solution(r.p(0.8) ? Ipopt::SUCCESS : Ipopt::MAXITER_EXCEEDED, n, x.data(), zl.data(), zu.data(), m, g.data(), la.data(), obj, nullptr, nullptr);
        v.xs = x; v.gs = g; v.ds = zl; v.ds.insert(v.ds.end(), zu.begin(), zu.end()); v.ds.insert(v.ds.end(), la.begin(), la.end());
        ev_obs("finals_checked");
        if (p.obj_value() != obj) ev_viol("view:solution", M.name + " objective value of the final callback not stored");
        break;
      }
      case 12:
        if (P.size() < 4) { P.push_back(p.clone()); W.push_back(ViewRef(v)); ev_obs("view_clones"); }
        break;
    }
    // the object that was changed, and sometimes all of them (a change must not leak into a copy)
    for (size_t q = 0; q < P.size(); q++)
      if (q == w || r.p(0.5)) { checkView(*P[q], W[q], M, r, M.name + fmt(" object %d history%s", (int)q, hist.c_str())); if (g_viol_count != viol0) return; }
    if (r.p(0.08) && P.size() > 1) { size_t q = r.next() % P.size(); P.erase(P.begin() + q); W.erase(W.begin() + q); }
  }
}
static ModeReg r2("view", viewCase);
// ------------------------------------------------------------------ cuts on top of a problem
struct QCut { V a; V Q; double c = 0, lb, ub; bool quad = false; };
static Fn ofCut(const QCut &c, int n) {
  Fn f;
  f.lin = !c.quad;
  f.f = [=](const V &x, double &v) { v = c.c; for (int i = 0; i < n; i++) { v += c.a[i] * x[i]; if (c.quad) for (int j = 0; j < n; j++) v += c.Q[i * n + j] * x[i] * x[j]; } return true; };
  f.g = [=](const V &x, V &g) { g = c.a; if (c.quad) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { g[i] += c.Q[i * n + j] * x[j]; g[j] += c.Q[i * n + j] * x[i]; } return true; };
  return f;
}
static void setRow(OsiRowCut &o, QCut &c, int n, Rng &r) {
  CoinPackedVector row;
  c.a.assign(n, 0.);
  std::vector<int> perm(n);
  for (int j = 0; j < n; j++) perm[j] = j;
  for (int j = n - 1; j > 0; j--) std::swap(perm[j], perm[r.i(0, j)]);
  for (int j : perm) if (r.p(0.6)) { c.a[j] = r.nice(-3, 3); row.insert(j, c.a[j]); }
  c.lb = r.p(0.4) ? -1e300 : r.nice(-5, 0); c.ub = r.p(0.4) ? 1e300 : r.nice(0, 5);
  o.setRow(row); o.setLb(c.lb); o.setUb(c.ub);
}
static void setQuad(QuadCut &o, QCut &c, int n, Rng &r) {
  setRow(o, c, n, r);
  c.c = o.c() = r.p(0.4) ? 0. : r.nice(-3, 3);
  int ty = r.i(0, 2);
  o.type() = ty == 0 ? Upper : ty == 1 ? Lower : Full;
  c.Q.assign(n * n, 0.);
  std::vector<int> ri, ci; std::vector<double> el;
  std::vector<std::pair<int, int>> ent;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    if (ty == 0 && i > j) continue;
    if (ty == 1 && i < j) continue;
    if (!r.p(0.4)) continue;
    ent.push_back({i, j});
  }
  for (int q = (int)ent.size() - 1; q > 0; q--) std::swap(ent[q], ent[r.i(0, q)]);
  for (auto &en : ent) {
    double v = r.nice(-2, 2);
    if (v == 0) v = 1;
    ri.push_back(en.first); ci.push_back(en.second); el.push_back(v);
    c.Q[en.first * n + en.second] += v;
    if (ty != 2 && en.first != en.second) c.Q[en.second * n + en.first] += v;
  }
  bool colOrd = r.p(0.7);
  CoinPackedMatrix Q(colOrd, ri.data(), ci.data(), el.data(), (int)el.size());
  o.Q() = Q;
  c.quad = !el.empty();
  ev_state("quad_storage", fmt("%d%d", ty, colOrd));
}
struct QRef { Exp e; int m0; bool linObj = false; V obj; double c0 = 0; std::vector<QCut> cuts; };
static void quadCase(uint64_t seed, long k, const std::map<std::string, std::string> &) {
  const long viol0 = g_viol_count;
  Rng r(mix(mix(seed, 75), k));
  Model M = modelFor(mix(seed, 76), k, r);
  SmartPtr<MTMINLP> t = new MTMINLP(M);
  struct Flush { MTMINLP *t; ~Flush() { t->flushContract(); g_user = nullptr; } } flush{GetRawPtr(t)};
  g_user = GetRawPtr(t);
  t->scaling = r.p(0.3);
  QRef v0;
  v0.e = ofModel(M); v0.m0 = M.m;
  std::vector<SmartPtr<TMINLP2TNLPQuadCuts>> P{new TMINLP2TNLPQuadCuts(GetRawPtr(t))};
  std::vector<QRef> W{v0};
  P.reserve(8); W.reserve(8);
  std::string hist;
  int n = M.n;
  for (int step = 0; step < 10; step++) {
    size_t w = r.next() % P.size();
    TMINLP2TNLPQuadCuts &p = *P[w];
    QRef &v = W[w];
    int op = r.i(0, 8);
    hist += fmt(" %d@%d", op, (int)w);
    std::vector<QCut> add;
    if (op == 0 || op == 1) {
      Cuts cs;
      int nq = r.i(0, 3), nl = r.i(0, 2);
      std::vector<QCut> lin;
      for (int q = 0; q < nq; q++) { QuadCut o; QCut c; setQuad(o, c, n, r); cs.insert(o); add.push_back(c); }
      for (int q = 0; q < nl; q++) { OsiRowCut o; QCut c; setRow(o, c, n, r); cs.OsiCuts::insert(o); lin.push_back(c); }
      add.insert(add.end(), lin.begin(), lin.end());
      if (op == 0) p.addCuts(cs, r.p(0.5)); else p.addCuts((const OsiCuts &)cs);
      V x = pointIn(v.e, r, n);
      for (int q = 0; q < nq; q++) {
        double val; ofCut(add[q], n).f(x, val);
        double ev = std::max(add[q].lb - val, val - add[q].ub), gv = cs.quadCut(q).violated(x.data());
        if (!near(ev, gv, 1e-9)) { ev_viol("quadcuts:violation", M.name + fmt(" QuadCut::violated %.12g expected %.12g", gv, ev)); return; }
      }
    } else if (op == 2) {
      OsiCuts cs;
      int nl = r.i(1, 3);
      for (int q = 0; q < nl; q++) { OsiRowCut o; QCut c; setRow(o, c, n, r); cs.insert(o); add.push_back(c); }
      p.addCuts(cs);
    } else if (op == 3) {
      std::vector<std::unique_ptr<OsiRowCut>> own; std::vector<const OsiRowCut *> raw;
      int nl = r.i(0, 3);
      for (int q = 0; q < nl; q++) {
        QCut c;
        if (r.p(0.5)) { auto *o = new QuadCut(); setQuad(*o, c, n, r); own.emplace_back(o); }
        else { auto *o = new OsiRowCut(); setRow(*o, c, n, r); own.emplace_back(o); }
        raw.push_back(own.back().get());
        add.push_back(c);
      }
      p.addCuts(nl, raw.data());
    } else if (op == 4 || op == 5) {
      std::vector<int> idx;
      int nc = (int)v.cuts.size();
      std::vector<QCut> keep;
      double pr = r.p(0.2) ? 1. : 0.4;
      std::vector<char> del(nc, 0);
      for (int q = 0; q < nc; q++) if (r.p(pr)) { idx.push_back(v.m0 + q); del[q] = 1; }
      for (int q = 0; q < nc; q++) if (!del[q]) keep.push_back(v.cuts[q]);
      for (int q = (int)idx.size() - 1; q > 0; q--) std::swap(idx[q], idx[r.i(0, q)]);
      p.removeCuts((unsigned)idx.size(), idx.data());
      v.cuts = keep;
      ev_obs("cuts_removed", (long)idx.size());
    } else if (op == 6) {
      if (v.linObj && r.p(0.6)) { p.reset_objective(); v.linObj = false; }
      else { v.obj.resize(n); for (auto &y : v.obj) y = r.nice(-3, 3); v.c0 = r.nice(-3, 3); p.set_linear_objective(n, v.obj.data(), v.c0); v.linObj = true; }
    } else if (op == 7) {
      if (P.size() < 3) { TMINLP2TNLP *c = p.clone(); P.push_back(dynamic_cast<TMINLP2TNLPQuadCuts *>(c)); if (!IsValid(P.back())) { ev_viol("quadcuts:clone", M.name + " clone is of another class"); return; } W.push_back(QRef(v)); ev_obs("view_clones"); }
    } else {
      // a solve delivers a solution for the current rows
      int m = (int)(v.m0 + v.cuts.size());
      V x(n), zl(n), zu(n), g(m), la(m);
        la.reserve(1); g.reserve(1);
      for (auto *a : {&x, &zl, &zu, &g, &la}) for (auto &y : *a) y = r.u(-3, 3);
      p.finalize_solution(Ipopt::SUCCESS, n, x.data(), zl.data(), zu.data(), m, g.data(), la.data(), 1., nullptr, nullptr);
      if (r.p(0.5)) { V xi(n); for (auto &y : xi) y = r.u(-3, 3); p.setxInit(n, xi.data()); v.e.startX = {xi}; }
      if (r.p(0.5)) { V d(2 * n + m); for (auto &y : d) y = r.u(-3, 3); p.setDualsInit(2 * n + m, d.data()); }
    }
    v.cuts.insert(v.cuts.end(), add.begin(), add.end());
    ev_obs("cuts_added", (long)add.size());
    for (size_t q = 0; q < P.size(); q++) {
      if (q != w && !r.p(0.5)) continue;
      Exp e = W[q].e;
      if (W[q].linObj) {
        V o = W[q].obj; double c0 = W[q].c0;
        e.obj.f = [=](const V &x, double &f) { f = c0; for (int j = 0; j < n; j++) f += o[j] * x[j]; return true; };
        e.obj.g = [=](const V &x, V &g) { g = o; return true; };
      }
      for (auto &c : W[q].cuts) { e.rows.push_back(ofCut(c, n)); e.gl.push_back(c.lb); e.gu.push_back(c.ub); }
      ev_state("cuts_present", fmt("%d", (int)W[q].cuts.size()));
      std::string ctx = M.name + fmt(" object %d fortran %d cuts %d history%s", (int)q, M.fortran, (int)W[q].cuts.size(), hist.c_str());
      std::vector<V> pts{pointIn(e, r, n), pointIn(e, r, n)};
      checkTNLP(*P[q], e, pts, r, "quadcuts", ctx);
      if (g_viol_count != viol0) return;
      int m = (int)e.rows.size();
      Arr<double> x(n, 7e77), zl(n, 7e77), zu(n, 7e77), la(m, 7e77);
      P[q]->get_starting_point(n, true, x.get(), true, zl.get(), zu.get(), m, true, la.get());
      Arr<double> xs(n, 0), gs(m, 0);
      double os; bool ux = true, ug = true;
      if (P[q]->get_scaling_parameters(os, ux, n, xs.get(), ug, m, gs.get()) && ug)
        for (int i = 0; i < m; i++) if (!(gs[i] > 0)) { ev_viol("quadcuts:scaling", ctx + fmt(" scaling of row %d is %g", i, gs[i])); return; }
    }
    if (r.p(0.08) && P.size() > 1) { size_t q = r.next() % P.size(); P.erase(P.begin() + q); W.erase(W.begin() + q); }
  }
}
static ModeReg r3("quadcuts", quadCase);
// ------------------------------------------------------------------ linear objective reformulation
static void linObjCase(uint64_t seed, long k, const std::map<std::string, std::string> &) {
  const long viol0 = g_viol_count;
  Rng r(mix(mix(seed, 77), k));
  Model M = modelFor(mix(seed, 78), k, r);
  SmartPtr<MTMINLP> t = new MTMINLP(M);
  t->scaling = r.p(0.5);
  struct Flush { MTMINLP *t; ~Flush() { t->flushContract(); g_user = nullptr; } } flush{GetRawPtr(t)};
  g_user = GetRawPtr(t);
  SmartPtr<TMINLPLinObj> L = new TMINLPLinObj();
  if (r.p(0.2)) { Model M2 = modelFor(mix(seed, 79), k, r); L->setTminlp(new MTMINLP(M2)); }
  L->setTminlp(GetRawPtr(t));
  Exp e = ofModel(M), x = e;
  int n = M.n;
  x.n = n + 1;
  x.xl.push_back(-1e300); x.xu.push_back(1e300);
  x.gl.insert(x.gl.begin(), -1e300); x.gu.insert(x.gu.begin(), 0.);
  auto cut = [n](const V &y) { return V(y.begin(), y.begin() + n); };
  auto ext = [=](const Fn &f, bool obj) {
    Fn q; q.lin = obj ? -1 : f.lin;
    q.f = [=](const V &y, double &v) { if (!f.f(cut(y), v)) return false; if (obj) v -= y[n]; return true; };
    q.g = [=](const V &y, V &g) { if (!f.g(cut(y), g)) return false; g.push_back(obj ? -1. : 0.); return true; };
    return q;
  };
  x.rows.clear();
  x.rows.push_back(ext(e.obj, true));
  for (auto &q : e.rows) x.rows.push_back(ext(q, false));
  x.obj.f = [n](const V &y, double &v) { v = y[n]; return true; };
  x.obj.g = [n](const V &y, V &g) { g.assign(n + 1, 0.); g[n] = 1; return true; };
  V s = M.x0; double f0;
  x.startX.clear();
  if (M.f.eval(s.data(), f0)) { s.push_back(f0); x.startX = {s}; }
  std::string ctx = M.name + fmt(" fortran %d m %d", M.fortran, M.m);
  ev_state("linobj_shape", fmt("%d%d%d", M.fortran, M.m > 0, M.nInt() > 0));
  {
    Index nn, mm, a, b; TNLP::IndexStyleEnum st;
    L->get_nlp_info(nn, mm, a, b, st);
    std::vector<TMINLP::VariableType> ty(nn);
    L->get_variables_types(nn, ty.data());
    for (int j = 0; j < n; j++) if (ty[j] != (M.type[j] == 0 ? TMINLP::CONTINUOUS : M.type[j] == 1 ? TMINLP::BINARY : TMINLP::INTEGER)) ev_viol("linobj:types", ctx + fmt(" x%d", j));
    if (ty[n] != TMINLP::CONTINUOUS) ev_viol("linobj:types", ctx + " extra variable");
    if (!L->hasLinearObjective()) ev_viol("linobj:linear", ctx);
    double os = 0; bool ux = r.p(0.5), ug = r.p(0.5);
    bool ux0 = ux, ug0 = ug;
    Arr<double> xs(nn, -1), gs(mm, -1);
    bool ok = L->get_scaling_parameters(os, ux, nn, ux || r.p(0.5) ? xs.get() : nullptr, ug, mm, ug || r.p(0.5) ? gs.get() : nullptr);
    if (ok && t->scaling) {
      ev_obs("scalings_checked");
      if (ux && ux0) for (int j = 0; j < nn; j++) if (!(xs[j] > 0)) ev_viol("linobj:scaling", ctx + fmt(" x%d scaling %g", j, xs[j]));
      if (ug && ug0) for (int j = 0; j < mm; j++) if (!(gs[j] > 0)) ev_viol("linobj:scaling", ctx + fmt(" row %d scaling %g", j, gs[j]));
    }
  }
  SmartPtr<TMINLP2TNLP> p = new TMINLP2TNLP(GetRawPtr(L));
  std::vector<V> pts;
  for (int q = 0; q < 4; q++) { V y = pointIn(e, r, n); y.push_back(r.u(-10, 10)); pts.push_back(y); }
  checkTNLP(*p, x, pts, r, "linobj", ctx);
  {
    std::vector<double> y = pointIn(e, r, n); y.push_back(3);
    L->finalize_solution(TMINLP::SUCCESS, n + 1, y.data(), 3.);
    ev_obs("finals_checked");
    if (t->finals.size() != 1 || t->finals[0].status != TMINLP::SUCCESS || t->finals[0].obj != 3. || !t->finals[0].hasX || t->finals[0].x.size() != (size_t)n) ev_viol("linobj:final", ctx + " final callback not passed on");
    else for (int j = 0; j < n; j++) if (t->finals[0].x[j] != y[j]) ev_viol("linobj:final", ctx + " other point");
  }
}
static ModeReg r4("linobj", linObjCase);
}  // namespace mon
