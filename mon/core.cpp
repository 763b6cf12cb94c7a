#include "core.hpp"
#include <cstdarg>
#include <unistd.h>
#include <cassert>
using namespace Ipopt;
namespace mon {

static int g_fd = 1;
long g_viol_count = 0;
static std::string cur;
void ev_open(int fd) { g_fd = fd; }
static void out(const std::string &s) {
  std::string t;
  for (char c : s) t += (c == '\n' || c == '\r') ? ' ' : c;
  t += '\n';
  size_t o = 0;
  while (o < t.size()) {
    ssize_t w = ::write(g_fd, t.data() + o, t.size() - o);
    if (w <= 0) break;
    o += (size_t)w;
  }
}
static std::map<std::string, long> obsAcc;
static std::set<std::string> stateSeen;
void ev_begin(const std::string &id) { cur = id; out("BEGIN " + id); }
void ev_end(const std::string &id, const std::string &status) {
  for (auto &o : obsAcc) out("OBS " + o.first + " " + std::to_string(o.second));
  obsAcc.clear();
  out("END " + id + " " + status);
}
void ev_viol(const std::string &key, const std::string &detail) {
  g_viol_count++;
  out("VIOL " + key + " | " + detail);
}
void ev_obs(const std::string &key, long c) { obsAcc[key] += c; }
void ev_state(const std::string &key, const std::string &val) {
  std::string s = key + "=" + val;
  if (stateSeen.insert(s).second) out("STATE " + s);
}
void ev_note(const std::string &t) { out("NOTE " + t); }
std::string fmt(const char *f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

// ---------------------------------------------------------------- functions
bool phi_eval(int phi, double t, double &v, double &d1, double &d2) {
  switch (phi) {
    case SQ: v = t * t; d1 = 2 * t; d2 = 2; return true;
    case EXP: { double e = std::exp(t); v = e; d1 = e; d2 = e; return std::isfinite(e); }
    case NLOG: if (!(t > 0)) { v = d1 = d2 = 0; return false; } v = -std::log(t); d1 = -1 / t; d2 = 1 / (t * t); return true;
    case P4: v = t * t * t * t; d1 = 4 * t * t * t; d2 = 12 * t * t; return true;
    case HYP: { double s = std::sqrt(1 + t * t); v = s; d1 = t / s; d2 = 1 / (s * s * s); return true; }
    case SOFTP: {
      double e = t > 30 ? t : std::log1p(std::exp(t));
      double q = 1 / (1 + std::exp(-t));
      v = e; d1 = q; d2 = q * (1 - q); return true; }
    case SIN: v = std::sin(t); d1 = std::cos(t); d2 = -std::sin(t); return true;
    default: v = t; d1 = 1; d2 = 0; return true;
  }
}
bool Func::eval(const double *x, double &v) const {
  v = c0;
  for (auto &l : lin) v += l.second * x[l.first];
  bool ok = true;
  for (auto &t : terms) { double a, b, c; ok &= phi_eval(t.phi, t.arg(x), a, b, c); v += t.c * a; }
  return ok;
}
bool Func::grad(const double *x, std::vector<double> &g) const {
  for (auto &l : lin) g[l.first] += l.second;
  bool ok = true;
  for (auto &t : terms) {
    double a, b, c; ok &= phi_eval(t.phi, t.arg(x), a, b, c);
    for (size_t k = 0; k < t.idx.size(); k++) g[t.idx[k]] += t.c * b * t.a[k];
  }
  return ok;
}
std::vector<int> Func::support() const {
  std::set<int> s;
  for (auto &l : lin) s.insert(l.first);
  for (auto &t : terms) for (int k : t.idx) s.insert(k);
  return std::vector<int>(s.begin(), s.end());
}
static void addHess(std::set<std::pair<int, int>> &S, const Func &f) {
  for (auto &t : f.terms)
    for (size_t a = 0; a < t.idx.size(); a++)
      for (size_t b = 0; b <= a; b++) {
        int i = t.idx[a], j = t.idx[b];
        S.insert({std::max(i, j), std::min(i, j)});
      }
}
void Model::finish() {
  m = (int)g.size();
  n = (int)type.size();
  jac.clear();
  for (auto &r : g) jac.push_back(r.support());
  std::set<std::pair<int, int>> S;
  addHess(S, f);
  for (auto &r : g) addHess(S, r);
  hess.assign(S.begin(), S.end());
}
bool Model::violation(const double *x, double &vmax, int *where) const {
  vmax = 0;
  if (where) *where = -1;
  for (int i = 0; i < n; i++) {
    if (!(x[i] == x[i])) { vmax = 1e300; return false; }
    double v = std::max(xl[i] - x[i], x[i] - xu[i]);
    if (v > vmax) { vmax = v; if (where) *where = i; }
  }
  bool ok = true;
  for (int i = 0; i < m; i++) {
    double gv;
    if (!g[i].eval(x, gv)) { ok = false; continue; }
    double v = std::max(gl[i] > -1e19 ? gl[i] - gv : -1., gu[i] < 1e19 ? gv - gu[i] : -1.);
    if (v > vmax) { vmax = v; if (where) *where = n + i; }
  }
  return ok;
}
double Model::intViol(const double *x) const {
  double w = 0;
  for (int i = 0; i < n; i++) if (type[i]) w = std::max(w, std::fabs(x[i] - std::floor(x[i] + 0.5)));
  return w;
}
static std::string funcStr(const Func &f) {
  static const char *nm[] = {"sq", "exp", "-log", "p4", "hyp", "softplus", "lin", "sin"};
  std::string s = fmt("%g", f.c0);
  for (auto &l : f.lin) s += fmt(" %+g*x%d", l.second, l.first);
  for (auto &t : f.terms) {
    s += fmt(" %+g*%s(%g", t.c, nm[t.phi], t.b);
    for (size_t k = 0; k < t.idx.size(); k++) s += fmt("%+g*x%d", t.a[k], t.idx[k]);
    s += ")";
  }
  return s;
}
std::string Model::describe() const {
  std::string s = fmt("%s n=%d m=%d %s\n min %s\n", name.c_str(), n, m, fortran ? "fortran" : "C", funcStr(f).c_str());
  for (int i = 0; i < m; i++) s += fmt(" g%d: %g <= %s <= %g\n", i, gl[i], funcStr(g[i]).c_str(), gu[i]);
  for (int i = 0; i < n; i++) s += fmt(" x%d %s in [%g,%g] x0=%g\n", i, type[i] == 0 ? "C" : type[i] == 1 ? "B" : "I", xl[i], xu[i], x0[i]);
  for (auto &q : sos) {
    s += fmt(" sos%d:", q.type);
    for (size_t k = 0; k < q.idx.size(); k++) s += fmt(" x%d", q.idx[k]);
    s += "\n";
  }
  if (hasUB) s += " ub objective " + funcStr(fub) + "\n";
  return s;
}

// ---------------------------------------------------------------- generator
static Term randTerm(Rng &r, const Model &M, const std::vector<int> &cand, bool concaveNeg) {
  Term t;
  int k = std::min((int)cand.size(), r.i(1, 2 + (r.p(0.3) ? 1 : 0)));
  std::vector<int> c = cand;
  for (int q = 0; q < k; q++) {
    int j = r.i(q, (int)c.size() - 1);
    std::swap(c[q], c[j]);
  }
  c.resize(k);
  std::sort(c.begin(), c.end());
  t.idx = c;
  double lo = 0, hi = 0;
  bool bounded = true;
  for (int j : c) {
    double a = r.nice(-2, 2, 0.25);
    if (a == 0) a = 0.5;
    t.a.push_back(a);
    if (M.xl[j] < -1e10 || M.xu[j] > 1e10) bounded = false;
    else { lo += std::min(a * M.xl[j], a * M.xu[j]); hi += std::max(a * M.xl[j], a * M.xu[j]); }
  }
  static const int kinds[] = {SQ, SQ, SQ, EXP, NLOG, P4, HYP, SOFTP};
  t.phi = kinds[r.i(0, 7)];
  t.b = r.nice(-2, 2, 0.25);
  t.c = r.nice(0.25, 2, 0.25);
  if (!bounded) { if (t.phi == EXP || t.phi == NLOG || t.phi == P4) t.phi = r.p(0.5) ? SQ : HYP; }
  else {
    double w = std::max(std::fabs(lo + t.b), std::fabs(hi + t.b));
    if (t.phi == EXP) {  // keep argument within [-3,2]
      double sc = 1;
      if (hi - lo > 3) sc = 3 / (hi - lo);
      for (auto &a : t.a) a *= sc;
      lo *= sc; hi *= sc;
      t.b = 1.5 - hi;
    } else if (t.phi == NLOG) {
      t.b = -lo + r.nice(0.5, 2, 0.25);
    } else if (t.phi == P4) {
      double sc = w > 2 ? 2 / w : 1;
      for (auto &a : t.a) a *= sc;
      t.b *= sc;
    } else if (t.phi == SQ && w > 6) {
      double sc = 6 / w;
      for (auto &a : t.a) a *= sc;
      t.b *= sc;
    }
  }
  if (concaveNeg) t.c = -t.c;
  return t;
}
static void randLin(Rng &r, Func &f, const std::vector<int> &all, double dens, double mag) {
  for (int j : all)
    if (r.p(dens)) { double c = r.nice(-mag, mag, 0.25); if (c != 0) f.lin.push_back({j, c}); }
}

Model genLattice(uint64_t seed, int maxInt, double &optimum, bool &feasible, std::vector<double> &best) {
  Rng r(seed);
  Model M;
  M.name = fmt("lat-%llx", (unsigned long long)seed);
  int n = r.i(3, maxInt);
  M.n = n;
  std::vector<int> xr;
  long dom = 1;
  for (int j = 0; j < n; j++) {
    int w = dom > 3000 || r.p(0.4) ? 1 : r.i(2, 5), lo = w == 1 ? 0 : r.i(-3, 0);
    M.type.push_back(w == 1 ? 1 : 2); M.xl.push_back(lo); M.xu.push_back(lo + w); dom *= w + 1;
    xr.push_back(r.i(lo, lo + w)); M.x0.push_back(lo + 0.5 * w);
  }
  auto sq = [&](int k) { Term t; t.c = r.nice(0.25, 2, 0.25); t.phi = SQ; t.b = r.u(-3, 3); for (int j = 0; j < n; j++) if (r.p(0.7)) { t.idx.push_back(j); t.a.push_back(r.i(-3, 3) + (r.p(0.5) ? 0.25 : 0.)); }
    if (t.idx.empty()) { t.idx = {k % n}; t.a = {1}; } return t; };
  int ns = r.i(n - 1, n + 1);
  for (int q = 0; q < ns; q++) M.f.terms.push_back(sq(q));
  for (int j = 0; j < n; j++) if (r.p(0.4)) M.f.lin.push_back({j, r.nice(-3, 3, 0.25)});
  M.f.c0 = r.p(0.5) ? r.nice(-8, 8) : 0;
  std::vector<double> x(xr.begin(), xr.end());
  int mc = r.i(0, 3);
  for (int i = 0; i < mc; i++) {
    Func g; double v;
    if (r.p(0.6)) { for (int j = 0; j < n; j++) if (r.p(0.8)) g.lin.push_back({j, (double)r.i(-4, 5)}); if (g.lin.empty()) g.lin.push_back({0, 1}); }
    else { g.terms.push_back(sq(i)); if (r.p(0.5)) g.lin.push_back({r.i(0, n - 1), r.nice(-2, 2)}); }
    g.eval(x.data(), v);
    M.g.push_back(g); M.gl.push_back(-INFB); M.gu.push_back(v + r.nice(0.25, 3, 0.25));
  }
  if (r.p(0.06)) { Func g; int j = r.i(0, n - 1); g.lin.push_back({j, 2}); double c = 2 * M.xl[j] + 1; M.g.push_back(g); M.gl.push_back(c - 0.4); M.gu.push_back(c + 0.4); }
  M.m = (int)M.g.size();
  M.fortran = r.p(0.5);
  M.finish();
  // enumerate
  std::vector<double> y(M.xl);
  feasible = false; optimum = 1e300;
  for (;;) {
    bool ok = true;
    for (int i = 0; i < M.m && ok; i++) { double v; M.g[i].eval(y.data(), v); ok = v <= M.gu[i] + 1e-9 && v >= M.gl[i] - 1e-9; }
    if (ok) { double v; M.f.eval(y.data(), v); feasible = true; if (v < optimum) { optimum = v; best = y; } }
    int j = 0;
    for (; j < n; j++) { if (y[j] < M.xu[j] - 0.5) { y[j] += 1; break; } y[j] = M.xl[j]; }
    if (j == n) break;
  }
  return M;
}

Model genConvex(uint64_t seed, const GenOpts &o) {
  Rng r(seed);
  Model M;
  M.name = fmt("cvx-%llx", (unsigned long long)seed);
  int ni = r.p(o.pNoInt) ? 0 : r.i(1, o.maxInt);
  int nc = (r.p(o.pPure) && ni > 0) ? 0 : r.i(1, o.maxCont);
  if (ni + nc == 0) nc = 1;
  int n = ni + nc;
  // interleave kinds
  std::vector<int> kind(n, 0);
  for (int k = 0; k < ni; k++) kind[k] = 1;
  for (int k = n - 1; k > 0; k--) std::swap(kind[k], kind[r.i(0, k)]);
  int cap = nc == 0 ? o.domainCap * 8 : o.domainCap;
  long dom = 1;
  for (int k = 0; k < n; k++) {
    if (kind[k]) {
      if (r.p(0.5) || dom * 3 > cap) { M.type.push_back(1); M.xl.push_back(0); M.xu.push_back(1); dom *= 2; }
      else {
        int w = r.i(2, std::max(2, std::min(6, (int)(cap / dom) - 1)));
        int lo = r.i(-4, 3);
        M.type.push_back(2); M.xl.push_back(lo); M.xu.push_back(lo + w); dom *= w + 1;
      }
    } else {
      M.type.push_back(0);
      if (r.p(o.pInfBounds)) {
        int q = r.i(0, 2);
        M.xl.push_back(q == 0 || q == 2 ? -INFB : r.nice(-3, 0));
        M.xu.push_back(q == 1 || q == 2 ? INFB : r.nice(1, 4));
      } else {
        double lo = r.nice(-4, 2), w = r.nice(0.5, 6);
        M.xl.push_back(lo); M.xu.push_back(lo + w);
      }
      if (r.p(0.03) && M.xl.back() > -1e10) M.xu.back() = M.xl.back();  // fixed variable
    }
  }
  M.n = n;
  std::vector<int> all(n);
  for (int k = 0; k < n; k++) all[k] = k;
  // interior reference point (integers at a random integral value, continuous strictly inside)
  std::vector<double> xr(n);
  for (int k = 0; k < n; k++) {
    double lo = std::max(M.xl[k], -3.), hi = std::min(M.xu[k], 3.);
    if (lo > hi) { lo = M.xl[k] > -1e10 ? M.xl[k] : M.xu[k]; hi = lo; }
    if (M.type[k]) xr[k] = r.i((int)M.xl[k], (int)M.xu[k]);
    else xr[k] = lo + (hi - lo) * r.u(0.25, 0.75);
  }
  // constraints
  int mc = r.i(0, o.maxCons);
  bool infeas = r.p(o.pInfeasible);
  if (infeas && mc < 2) mc = 2;
  for (int i = 0; i < mc; i++) {
    Func g;
    double gl = -INFB, gu = INFB;
    int kindc = r.i(0, 9);
    if (kindc <= 4) {  // nonlinear convex <=
      int nt = r.i(1, 2);
      for (int q = 0; q < nt; q++) g.terms.push_back(randTerm(r, M, all, false));
      randLin(r, g, all, 0.5, 2);
      double v; g.eval(xr.data(), v);
      gu = v + r.nice(0.25, 3, 0.25);
      if (r.p(0.25)) {  // as concave >=
        for (auto &l : g.lin) l.second = -l.second;
        for (auto &t : g.terms) t.c = -t.c;
        gl = -gu; gu = INFB;
      }
    } else {
      randLin(r, g, all, 0.7, 3);
      if (g.lin.empty()) g.lin.push_back({r.i(0, n - 1), 1.0});
      double v; g.eval(xr.data(), v);
      int w = r.i(0, 5);
      if (w <= 1) gu = v + r.nice(0.25, 2, 0.25);
      else if (w <= 3) gl = v - r.nice(0.25, 2, 0.25);
      else if (w == 4) { gl = v - r.nice(0.25, 2, 0.25); gu = v + r.nice(0.25, 2, 0.25); }
      else if (r.p(o.pEq * 5) && nc > 1) {
        bool hasc = false;
        for (auto &l : g.lin) if (!M.type[l.first] && M.xl[l.first] < M.xu[l.first]) hasc = true;
        if (hasc) gl = gu = v; else gu = v + 0.5;
      } else gu = v + 0.5;
    }
    if (r.p(0.1)) g.c0 = r.nice(-2, 2);  // constant inside the constraint body
    if (g.c0 != 0) { if (gl > -1e19) gl += g.c0; if (gu < 1e19) gu += g.c0; }
    if (r.p(o.pFreeRow)) { gl = -INFB; gu = INFB; }  // free row
    M.g.push_back(g); M.gl.push_back(gl); M.gu.push_back(gu);
  }
  if (infeas) {
    // make it infeasible: either in the relaxation, or only for integer points
    if (r.p(0.4) || ni == 0) {
      Func a; a.terms.push_back(randTerm(r, M, all, false)); a.terms[0].phi = SQ;
      // a >= 0 always, ask for a <= -1
      M.g.push_back(a); M.gl.push_back(-INFB); M.gu.push_back(-r.nice(0.5, 2));
    } else {
      int j; do j = r.i(0, n - 1); while (!M.type[j]);
      Func a; a.lin.push_back({j, 2.0});
      if (r.p(0.5)) { Term t; t.c = 1; t.phi = SQ; t.b = -(M.xl[j] + 0.5); t.idx = {j}; t.a = {1.0}; Func b; b.terms.push_back(t);
        M.g.push_back(b); M.gl.push_back(-INFB); M.gu.push_back(0.1); }
      else { double c = 2 * M.xl[j] + 1; M.g.push_back(a); M.gl.push_back(c - 0.4); M.gu.push_back(c + 0.4); }
    }
  }
  // objective
  bool linObj = r.p(o.pLinObj);
  randLin(r, M.f, all, 0.8, 3);
  if (!linObj) {
    int nt = r.i(1, 3);
    for (int q = 0; q < nt; q++) M.f.terms.push_back(randTerm(r, M, all, false));
  }
  // coercivity on unbounded variables
  for (int k = 0; k < n; k++)
    if (M.xl[k] < -1e10 || M.xu[k] > 1e10) {
      Term t; t.c = r.nice(0.25, 1, 0.25); t.phi = SQ; t.b = r.nice(-1, 1); t.idx = {k}; t.a = {1.0};
      if (linObj) {
        Func b; b.terms.push_back(t); double v; b.eval(xr.data(), v);
        M.g.push_back(b); M.gl.push_back(-INFB); M.gu.push_back(v + r.nice(0.5, 4, 0.25));
      } else M.f.terms.push_back(t);
    }
  if (r.p(0.3)) M.f.c0 = r.nice(-20, 20);
  if (r.p(0.1)) { double sc = r.p(0.5) ? 100 : 0.05; M.f.c0 *= sc; for (auto &l : M.f.lin) l.second *= sc; for (auto &t : M.f.terms) t.c *= sc; }
  // start point
  for (int k = 0; k < n; k++) {
    double lo = std::max(M.xl[k], -3.), hi = std::min(M.xu[k], 3.);
    if (lo > hi) hi = lo = (M.xl[k] > -1e10 ? M.xl[k] : M.xu[k]);
    M.x0.push_back(r.p(0.1) ? 0. : r.u(lo, hi));
  }
  M.fortran = r.p(0.5);
  M.declLinObj = M.f.linear() && r.p(0.7);
  // SOS1 over existing binaries/continuous nonnegatives
  if (r.p(o.pSos)) {
    std::vector<int> c;
    for (int k = 0; k < n; k++) if (M.xl[k] == 0 && M.xu[k] > 0 && M.xu[k] < 1e10) c.push_back(k);  // branching on a set only lowers upper bounds
    if (c.size() >= 2) {
      Model::Sos s; s.type = 1; s.prio = r.i(1, 5);
      for (size_t k = 0; k < c.size() && k < 5; k++) { s.idx.push_back(c[k]); s.w.push_back(k + 1.0); }
      M.sos.push_back(s);
    }
  }
  if (r.p(o.pBranchInfo)) {
    for (int k = 0; k < n; k++) { M.prio.push_back(r.i(1, 20)); M.dir.push_back(r.i(-1, 1)); M.upPs.push_back(r.nice(0.25, 5)); M.downPs.push_back(r.nice(0.25, 5)); }
  }
  if (o.pTwoSided > 0) {  // nonlinear rows with a second, redundant finite side
    Rng q(mix(seed, 4711));
    for (size_t i = 0; i < M.g.size(); i++) {
      if (M.g[i].linear() || !q.p(o.pTwoSided)) continue;
      bool bounded = true;
      for (int j : M.g[i].support()) if (M.xl[j] < -1e10 || M.xu[j] > 1e10) bounded = false;
      if (!bounded) continue;
      // the redundant side is farther from every point of the box than the other one
      bool up = M.gu[i] < 1e19;
      double ext = 1e300;
      std::vector<double> y(n);
      for (int s = 0; s < 300; s++) {
        for (int j = 0; j < n; j++) {
          double lo = std::max(M.xl[j], -1e3), hi = std::min(M.xu[j], 1e3);
          y[j] = s % 3 == 0 ? (q.p(0.5) ? lo : hi) : q.u(lo, hi);
        }
        double v;
        if (M.g[i].eval(y.data(), v)) ext = std::min(ext, up ? v : -v);
      }
      if (ext > 1e200 || (up ? M.gl[i] : -M.gu[i]) > -1e19) continue;
      double side = up ? M.gu[i] : -M.gl[i];
      double red = std::min(ext, side) - (side - std::min(ext, side)) - 2 - 0.5 * std::fabs(ext);
      if (q.p(0.2)) red = -3000 * (1 + std::fabs(red));
      if (up) M.gl[i] = red; else M.gu[i] = -red;
    }
  }
  M.finish();
  return M;
}

Model genNonconvex(uint64_t seed, const GenOpts &o) {
  GenOpts q = o;
  q.pInfBounds = 0;
  Model M = genConvex(mix(seed, 77), q);
  Rng r(mix(seed, 78));
  M.convex = false;
  M.name = fmt("ncv-%llx", (unsigned long long)seed);
  std::vector<int> all(M.n);
  for (int k = 0; k < M.n; k++) all[k] = k;
  int nt = r.i(1, 3);
  for (int k = 0; k < nt; k++) {
    Term t = randTerm(r, M, all, false);
    if (r.p(0.5)) { t.phi = SIN; t.c = r.nice(0.5, 2); } else if (t.phi != NLOG) t.c = -0.5 * t.c;
    int where = r.i(-1, M.m - 1);
    if (where < 0) { M.f.terms.push_back(t); M.declLinObj = false; }
    else M.g[where].terms.push_back(t);
  }
  M.finish();
  return M;
}

// ---------------------------------------------------------------- instrumented TMINLP
MTMINLP::MTMINLP(const Model &m, bool mn) : M(m), monitorNewX(mn) {
  if (!M.sos.empty()) {
    sos_.num = (int)M.sos.size();
    sos_.types = new char[sos_.num];
    sos_.priorities = new int[sos_.num];
    sos_.starts = new int[sos_.num + 1];
    int nz = 0;
    for (auto &s : M.sos) nz += (int)s.idx.size();
    sos_.numNz = nz;
    sos_.indices = new int[nz];
    sos_.weights = new double[nz];
    nz = 0;
    for (int k = 0; k < sos_.num; k++) {
      sos_.types[k] = (char)M.sos[k].type;
      sos_.priorities[k] = M.sos[k].prio;
      sos_.starts[k] = nz;
      for (size_t q = 0; q < M.sos[k].idx.size(); q++) { sos_.indices[nz] = M.sos[k].idx[q]; sos_.weights[nz++] = M.sos[k].w[q]; }
    }
    sos_.starts[sos_.num] = nz;
  }
  if (M.hints()) {
    br_.size = M.n;
    if (!M.prio.empty()) br_.priorities = CoinCopyOfArray(M.prio.data(), M.n);
    if (!M.dir.empty()) br_.branchingDirections = CoinCopyOfArray(M.dir.data(), M.n);
    if (!M.upPs.empty()) br_.upPsCosts = CoinCopyOfArray(M.upPs.data(), M.n);
    if (!M.downPs.empty()) br_.downPsCosts = CoinCopyOfArray(M.downPs.data(), M.n);
  }
}
MTMINLP::~MTMINLP() {}
const Bonmin::TMINLP::BranchingInfo *MTMINLP::branchingInfo() const { return M.hints() ? &br_ : NULL; }
const Bonmin::TMINLP::SosInfo *MTMINLP::sosConstraints() const { return M.sos.empty() ? NULL : &sos_; }
void MTMINLP::breach(const std::string &key, const std::string &d) {
  if (!monitorContract) return;
  if (contractViol.empty()) firstContract = key + ": " + d;
  contractViol[key]++;
}
void MTMINLP::flushContract() {
  for (auto &c : contractViol) ev_viol("callback-contract:" + c.first, fmt("%ld times; first breach: %s", c.second, firstContract.c_str()));
  contractViol.clear();
}
static const char *KN[] = {"?", "eval_f", "eval_grad_f", "eval_g", "eval_jac_g", "eval_h", "eval_gi", "eval_grad_gi"};
bool MTMINLP::pre(int kind, Index n, const Number *x, bool nx, const char *who) {
  calls[kind]++;
  totalCalls++;
  if (totalCalls > evalLimit) {  // runaway: counted as inconclusive by the runner
    ev_note(fmt("RUNAWAY after %ld evaluations", totalCalls));
    _exit(6);
  }
  if (n != M.n) breach(std::string(who) + "-n", fmt("n=%d declared %d", n, M.n));
  if (x == NULL) { breach(std::string(who) + "-x-null", "x is NULL in a value call"); return false; }
  if (monitorNewX) {
    if (!nx && haveX_) {
      if (memcmp(lastX_.data(), x, sizeof(double) * M.n) != 0)
        breach(std::string(who) + "-new_x", "new_x=false although x differs from the previous point");
    } else if (!nx && !haveX_)
      breach(std::string(who) + "-new_x-first", "new_x=false on the first evaluation");
    lastX_.assign(x, x + M.n);
    haveX_ = true;
  }
  for (int i = 0; i < M.n; i++)
    if (!(x[i] == x[i])) { breach(std::string(who) + "-nan", fmt("x[%d] is NaN", i)); break; }
  if (onCall) onCall(totalCalls);
  if (fault.kind) {
    bool hit = false;
    if (fault.atRegion) hit = (fault.kind == kind || fault.kind == FaultPlan::ANY) && x[fault.var] >= fault.rlo && x[fault.var] <= fault.rhi;
    else if (fault.kind == FaultPlan::ANY) hit = totalCalls >= fault.from && totalCalls <= fault.to;
    else if (fault.kind == kind) hit = calls[kind] >= fault.from && calls[kind] <= fault.to;
    if (hit) { faultsInjected++; return false; }
  }
  return true;
}
bool MTMINLP::get_nlp_info(Index &n, Index &m, Index &nj, Index &nh, TNLP::IndexStyleEnum &st) {
  n = M.n; m = M.m; nj = M.nnzJac(); nh = (int)M.hess.size();
  st = M.fortran ? TNLP::FORTRAN_STYLE : TNLP::C_STYLE;
  return true;
}
bool MTMINLP::get_scaling_parameters(Number &os, bool &ux, Index n, Number *xs, bool &ug, Index m, Number *gs) {
  if (!scaling) return false;
  if (n != M.n || m != M.m) breach("get_scaling_parameters-dims", fmt("n=%d m=%d", n, m));
  os = 1; ux = false; ug = false;
  return true;
}
bool MTMINLP::get_variables_types(Index n, VariableType *t) {
  if (n != M.n) breach("get_variables_types-n", fmt("%d", n));
  for (int i = 0; i < M.n; i++) t[i] = M.type[i] == 0 ? CONTINUOUS : M.type[i] == 1 ? BINARY : INTEGER;
  return true;
}
bool MTMINLP::get_variables_linearity(Index n, TNLP::LinearityType *t) {
  if (n != M.n) breach("get_variables_linearity-n", fmt("%d", n));
  std::vector<char> nl(M.n, 0);
  for (auto &h : M.hess) nl[h.first] = nl[h.second] = 1;
  for (int i = 0; i < M.n; i++) t[i] = nl[i] ? TNLP::NON_LINEAR : TNLP::LINEAR;
  return true;
}
bool MTMINLP::get_constraints_linearity(Index m, TNLP::LinearityType *t) {
  if (m != M.m) breach("get_constraints_linearity-m", fmt("m=%d declared %d", m, M.m));
  for (int i = 0; i < M.m; i++) t[i] = M.g[i].linear() ? TNLP::LINEAR : TNLP::NON_LINEAR;
  return true;
}
bool MTMINLP::get_bounds_info(Index n, Number *xl, Number *xu, Index m, Number *gl, Number *gu) {
  if (n != M.n || m != M.m) breach("get_bounds_info-dims", fmt("n=%d m=%d", n, m));
  for (int i = 0; i < M.n; i++) { xl[i] = M.xl[i]; xu[i] = M.xu[i]; }
  for (int i = 0; i < M.m; i++) { gl[i] = M.gl[i]; gu[i] = M.gu[i]; }
  return true;
}
bool MTMINLP::get_starting_point(Index n, bool ix, Number *x, bool iz, Number *zl, Number *zu, Index m, bool il, Number *lam) {
  if (n != M.n || m != M.m) breach("get_starting_point-dims", fmt("n=%d m=%d", n, m));
  if (ix) for (int i = 0; i < M.n; i++) x[i] = M.x0[i];
  if (iz && zl && zu) for (int i = 0; i < M.n; i++) zl[i] = zu[i] = 0;
  if (il && lam) for (int i = 0; i < M.m; i++) lam[i] = 0;
  return true;
}
bool MTMINLP::eval_f(Index n, const Number *x, bool nx, Number &v) {
  if (!pre(FaultPlan::F, n, x, nx, KN[1])) { v = 0; return false; }
  return M.f.eval(x, v);
}
bool MTMINLP::eval_grad_f(Index n, const Number *x, bool nx, Number *g) {
  if (!pre(FaultPlan::GRAD, n, x, nx, KN[2])) return false;
  std::vector<double> d(M.n, 0.);
  bool ok = M.f.grad(x, d);
  for (int i = 0; i < M.n; i++) g[i] = d[i];
  return ok;
}
bool MTMINLP::eval_g(Index n, const Number *x, bool nx, Index m, Number *g) {
  if (m != M.m) breach("eval_g-m", fmt("m=%d declared %d", m, M.m));
  if (!pre(FaultPlan::G, n, x, nx, KN[3])) return false;
  bool ok = true;
  for (int i = 0; i < M.m; i++) ok &= M.g[i].eval(x, g[i]);
  return ok;
}
bool MTMINLP::eval_jac_g(Index n, const Number *x, bool nx, Index m, Index nele, Index *ir, Index *jc, Number *v) {
  if (m != M.m) breach("eval_jac_g-m", fmt("m=%d declared %d", m, M.m));
  if (nele != M.nnzJac()) breach("eval_jac_g-nele", fmt("nele=%d declared %d", nele, M.nnzJac()));
  if (v == NULL) {
    if (nele > 0 && (ir == NULL || jc == NULL)) { breach("eval_jac_g-null", "structure call without index arrays"); return false; }
    int k = 0, off = M.fortran ? 1 : 0;
    for (int i = 0; i < M.m; i++) for (int j : M.jac[i]) { ir[k] = i + off; jc[k++] = j + off; }
    return true;
  }
  if (ir != NULL || jc != NULL) breach("eval_jac_g-both", "value call with index arrays");
  if (!pre(FaultPlan::JAC, n, x, nx, KN[4])) return false;
  int k = 0;
  bool ok = true;
  std::vector<double> d(M.n);
  for (int i = 0; i < M.m; i++) {
    std::fill(d.begin(), d.end(), 0.);
    ok &= M.g[i].grad(x, d);
    for (int j : M.jac[i]) v[k++] = d[j];
  }
  return ok;
}
bool MTMINLP::eval_h(Index n, const Number *x, bool nx, Number of, Index m, const Number *lam, bool nl, Index nele,
                     Index *ir, Index *jc, Number *v) {
  if (m != M.m) breach("eval_h-m", fmt("m=%d declared %d", m, M.m));
  if (nele != (int)M.hess.size()) breach("eval_h-nele", fmt("nele=%d declared %d", nele, (int)M.hess.size()));
  if (v == NULL) {
    if (nele > 0 && (ir == NULL || jc == NULL)) { breach("eval_h-null", "structure call without index arrays"); return false; }
    int k = 0, off = M.fortran ? 1 : 0;
    for (auto &h : M.hess) { ir[k] = h.first + off; jc[k++] = h.second + off; }
    return true;
  }
  if (ir != NULL || jc != NULL) breach("eval_h-both", "value call with index arrays");
  if (!pre(FaultPlan::H, n, x, nx, KN[5])) return false;
  std::map<std::pair<int, int>, int> pos;
  for (size_t k = 0; k < M.hess.size(); k++) { pos[M.hess[k]] = (int)k; v[k] = 0; }
  bool ok = true;
  auto add = [&](const Func &f, double w) {
    if (w == 0) return;
    for (auto &t : f.terms) {
      double a, b, c;
      ok &= phi_eval(t.phi, t.arg(x), a, b, c);
      for (size_t p = 0; p < t.idx.size(); p++)
        for (size_t q = 0; q <= p; q++) {
          int i = std::max(t.idx[p], t.idx[q]), j = std::min(t.idx[p], t.idx[q]);
          v[pos[{i, j}]] += w * t.c * c * t.a[p] * t.a[q];
        }
    }
  };
  add(M.f, of);
  for (int i = 0; i < M.m; i++) { if (!lam) { breach("eval_h-lambda-null", "lambda NULL in value call"); return false; } add(M.g[i], lam[i]); }
  return ok;
}
bool MTMINLP::eval_gi(Index n, const Number *x, bool nx, Index i, Number &gi) {
  if (i < 0 || i >= M.m) { breach("eval_gi-index", fmt("i=%d m=%d", i, M.m)); gi = 0; return false; }
  if (!pre(6, n, x, nx, KN[6])) return false;
  return M.g[i].eval(x, gi);
}
bool MTMINLP::eval_grad_gi(Index n, const Number *x, bool nx, Index i, Index &nele, Index *jc, Number *v) {
  if (i < 0 || i >= M.m) { breach("eval_grad_gi-index", fmt("i=%d m=%d", i, M.m)); nele = 0; return false; }
  if (jc) { nele = (int)M.jac[i].size(); for (size_t k = 0; k < M.jac[i].size(); k++) jc[k] = M.jac[i][k] + (M.fortran ? 1 : 0); }
  if (v) {
    if (!pre(7, n, x, nx, KN[7])) return false;
    nele = (int)M.jac[i].size();
    std::vector<double> d(M.n, 0.);
    bool ok = M.g[i].grad(x, d);
    for (size_t k = 0; k < M.jac[i].size(); k++) v[k] = d[M.jac[i][k]];
    return ok;
  }
  return true;
}
void MTMINLP::finalize_solution(Bonmin::TMINLP::SolverReturn st, Index n, const Number *x, Number obj) {
  if (n != M.n) breach("finalize_solution-n", fmt("%d", n));
  FinalCall c;
  c.status = (int)st; c.hasX = x != NULL; c.obj = obj;
  if (x) c.x.assign(x, x + M.n);
  finals.push_back(c);
}
bool MTMINLP::eval_upper_bound_f(Index n, const Number *x, Number &v) {
  ubCalls++;
  if (n != M.n) breach("eval_upper_bound_f-n", fmt("%d", n));
  if (ubFailFrom > 0 && ubCalls >= ubFailFrom && ubCalls <= ubFailTo) return false;
  double w;
  if (!M.fub.eval(x, w)) return false;
  v = w;
  ubSeen.push_back({w, std::vector<double>(x, x + M.n)});
  return true;
}

// ---------------------------------------------------------------- reference NLP (direct Ipopt; none of the tree's code)
class RefTNLP : public TNLP {
 public:
  const Model &M;
  std::vector<int> fr;       // free variables
  std::vector<double> full;  // values of the fixed ones
  std::vector<double> lo, hi;
  bool phase1;
  std::vector<double> start;
  double obj = 0, lam = 0;
  std::vector<double> sol;
  SolverReturn st = INTERNAL_ERROR;
  RefTNLP(const Model &m, const std::vector<double> &l, const std::vector<double> &h, bool p1) : M(m), lo(l), hi(h), phase1(p1) {
    full.resize(M.n);
    for (int i = 0; i < M.n; i++) {
      if (lo[i] == hi[i]) full[i] = lo[i];
      else fr.push_back(i);
    }
  }
  int nv() const { return (int)fr.size() + (phase1 ? 1 : 0); }
  // phase 1: rows gl - s <= g <= gu + s  -> two rows per finite side
  struct Row { int i; double sgn; double rhs; };
  std::vector<Row> rows;
  void mkRows() {
    rows.clear();
    for (int i = 0; i < M.m; i++) {
      if (M.gu[i] < 1e19) rows.push_back({i, 1., M.gu[i]});
      if (M.gl[i] > -1e19) rows.push_back({i, -1., -M.gl[i]});
    }
  }
  int nr() const { return phase1 ? (int)rows.size() : M.m; }
  bool get_nlp_info(Index &n, Index &m, Index &nj, Index &nh, IndexStyleEnum &s) override {
    if (phase1) mkRows();
    n = nv(); m = nr(); nj = n * m; nh = n * (n + 1) / 2; s = C_STYLE;
    return true;
  }
  bool get_bounds_info(Index n, Number *xl, Number *xu, Index m, Number *gl, Number *gu) override {
    for (size_t k = 0; k < fr.size(); k++) { xl[k] = lo[fr[k]]; xu[k] = hi[fr[k]]; }
    if (phase1) { xl[n - 1] = -10; xu[n - 1] = 1e20; for (int i = 0; i < m; i++) { gl[i] = -1e20; gu[i] = rows[i].rhs; } }
    else for (int i = 0; i < m; i++) { gl[i] = M.gl[i]; gu[i] = M.gu[i]; }
    return true;
  }
  void expand(const Number *x) { for (size_t k = 0; k < fr.size(); k++) full[fr[k]] = x[k]; }
  bool get_starting_point(Index n, bool, Number *x, bool, Number *, Number *, Index, bool, Number *) override {
    for (size_t k = 0; k < fr.size(); k++) x[k] = start[fr[k]];
    if (phase1) {
      expand(x);
      double w = 0;
      for (auto &r : rows) { double v; M.g[r.i].eval(full.data(), v); w = std::max(w, r.sgn * v - r.rhs); }
      x[n - 1] = w + 1;
    }
    return true;
  }
  bool eval_f(Index n, const Number *x, bool, Number &v) override {
    if (phase1) { v = x[n - 1]; return true; }
    expand(x);
    return M.f.eval(full.data(), v);
  }
  bool eval_grad_f(Index n, const Number *x, bool, Number *g) override {
    if (phase1) { for (int i = 0; i < n; i++) g[i] = 0; g[n - 1] = 1; return true; }
    expand(x);
    std::vector<double> d(M.n, 0.);
    bool ok = M.f.grad(full.data(), d);
    for (size_t k = 0; k < fr.size(); k++) g[k] = d[fr[k]];
    return ok;
  }
  bool eval_g(Index n, const Number *x, bool, Index m, Number *g) override {
    expand(x);
    bool ok = true;
    for (int i = 0; i < m; i++) {
      if (phase1) { double v; ok &= M.g[rows[i].i].eval(full.data(), v); g[i] = rows[i].sgn * v - x[n - 1]; }
      else ok &= M.g[i].eval(full.data(), g[i]);
    }
    return ok;
  }
  bool eval_jac_g(Index n, const Number *x, bool, Index m, Index, Index *ir, Index *jc, Number *v) override {
    int k = 0;
    if (!v) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { ir[k] = i; jc[k++] = j; } return true; }
    expand(x);
    bool ok = true;
    for (int i = 0; i < m; i++) {
      std::vector<double> d(M.n, 0.);
      double s = 1;
      if (phase1) { ok &= M.g[rows[i].i].grad(full.data(), d); s = rows[i].sgn; } else ok &= M.g[i].grad(full.data(), d);
      for (size_t j = 0; j < fr.size(); j++) v[k++] = s * d[fr[j]];
      if (phase1) v[k++] = -1;
    }
    return ok;
  }
  bool eval_h(Index n, const Number *x, bool, Number of, Index m, const Number *lam_, bool, Index, Index *ir, Index *jc, Number *v) override {
    int k = 0;
    if (!v) { for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { ir[k] = i; jc[k++] = j; } return true; }
    expand(x);
    std::vector<double> H(M.n * M.n, 0.);
    auto add = [&](const Func &f, double w) {
      for (auto &t : f.terms) {
        double a, b, c; phi_eval(t.phi, t.arg(full.data()), a, b, c);
        for (size_t p = 0; p < t.idx.size(); p++) for (size_t q = 0; q < t.idx.size(); q++) H[t.idx[p] * M.n + t.idx[q]] += w * t.c * c * t.a[p] * t.a[q];
      }
    };
    if (!phase1) add(M.f, of);
    for (int i = 0; i < m; i++) if (phase1) add(M.g[rows[i].i], rows[i].sgn * lam_[i]); else add(M.g[i], lam_[i]);
    int nf = (int)fr.size();
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) v[k++] = (i < nf && j < nf) ? H[fr[i] * M.n + fr[j]] : 0.;
    return true;
  }
  void finalize_solution(SolverReturn s, Index n, const Number *x, const Number *zl, const Number *zu, Index m, const Number *,
                         const Number *lam_, Number o, const IpoptData *, IpoptCalculatedQuantities *) override {
    st = s; obj = o;
    expand(x);
    sol = full;
    lam = 0;
    for (int i = 0; i < m; i++) lam += std::fabs(lam_[i]);
    if (phase1) obj = x[n - 1];
  }
};

static SmartPtr<IpoptApplication> refApp() {
  static SmartPtr<IpoptApplication> app;
  if (!IsValid(app)) {
    app = new IpoptApplication(false);
    app->Options()->SetIntegerValue("print_level", 0);
    app->Options()->SetStringValue("sb", "yes");
    app->Options()->SetNumericValue("tol", 1e-9);
    app->Options()->SetNumericValue("bound_relax_factor", 1e-10);
    app->Options()->SetIntegerValue("max_iter", 400);
    app->Options()->SetStringValue("mu_strategy", "monotone");
    app->Options()->SetIntegerValue("mumps_mem_percent", 20);
    app->Initialize("");
  }
  return app;
}

int solveConvexNlp(const Model &M, const std::vector<double> &lo, const std::vector<double> &hi, double &obj,
                   std::vector<double> &x, double &margin, double &lam, std::vector<double> *centre) {
  std::vector<double> st(M.n);
  for (int i = 0; i < M.n; i++) {
    if (lo[i] > hi[i]) { margin = lo[i] - hi[i]; return 1; }
    double a = std::max(lo[i], -5.), b = std::min(hi[i], 5.);
    if (a > b) { a = lo[i] > -1e10 ? lo[i] : hi[i]; b = a; }
    st[i] = 0.5 * (a + b);
  }
  bool anyFree = false;
  for (int i = 0; i < M.n; i++) if (lo[i] < hi[i]) anyFree = true;
  lam = 0;
  if (!anyFree) {
    double v; int w;
    x = st;
    for (int i = 0; i < M.n; i++) x[i] = lo[i];
    if (!M.violation(x.data(), v, &w)) return 2;
    // signed margin
    double mg = -10;
    for (int i = 0; i < M.m; i++) { double gv; M.g[i].eval(x.data(), gv); if (M.gu[i] < 1e19) mg = std::max(mg, gv - M.gu[i]); if (M.gl[i] > -1e19) mg = std::max(mg, M.gl[i] - gv); }
    margin = mg;
    if (!M.f.eval(x.data(), obj)) return 2;
    if (centre) *centre = x;
    return mg <= 1e-9 ? 0 : 1;
  }
  bool anyRow = false, anyEq = false;
  for (int i = 0; i < M.m; i++) {
    if (M.gl[i] > -1e19 || M.gu[i] < 1e19) anyRow = true;
    if (M.gl[i] == M.gu[i]) anyEq = true;
  }
  margin = -10;
  std::vector<double> s2 = st;
  if (anyRow) {
    SmartPtr<RefTNLP> p = new RefTNLP(M, lo, hi, true);
    p->start = st;
    ApplicationReturnStatus r = refApp()->OptimizeTNLP(GetRawPtr(p));
    if (r != Solve_Succeeded && r != Solved_To_Acceptable_Level) return 2;
    margin = p->obj;
    s2 = p->sol;
    if (margin > 1e-6) return 1;
    if (!anyEq && margin > -1e-7) return 2;
  }
  if (centre) *centre = s2;
  SmartPtr<RefTNLP> q = new RefTNLP(M, lo, hi, false);
  q->start = s2;
  ApplicationReturnStatus r = refApp()->OptimizeTNLP(GetRawPtr(q));
  if (r != Solve_Succeeded && r != Solved_To_Acceptable_Level) {
    q = new RefTNLP(M, lo, hi, false);
    q->start = st;
    r = refApp()->OptimizeTNLP(GetRawPtr(q));
  }
  if (r != Solve_Succeeded && r != Solved_To_Acceptable_Level) return 2;
  obj = q->obj; x = q->sol; lam = q->lam;
  double v; M.violation(x.data(), v);
  if (v > 1e-6) return 2;
  return 0;
}

Ref reference(const Model &M, bool honourSos) {
  Ref R;
  R.status = 1;
  R.obj = 1e300;
  std::vector<int> iv;
  for (int i = 0; i < M.n; i++) if (M.type[i]) iv.push_back(i);
  std::vector<double> lo = M.xl, hi = M.xu, cur(iv.size());
  // enumerate which member (two neighbours in sets of type 2) may be nonzero
  std::vector<std::vector<int>> sosPattern(1);
  if (honourSos && !M.sos.empty()) {
    std::vector<std::vector<int>> pats;  // list of sets of variables fixed at zero
    pats.push_back({});
    for (auto &s : M.sos) {
      std::vector<std::vector<int>> nxt;
      for (auto &p : pats)
        for (size_t k = 0; k + (s.type == 2) < s.idx.size(); k++) {
          std::vector<int> q = p;
          for (size_t j = 0; j < s.idx.size(); j++) if (j != k && !(s.type == 2 && j == k + 1)) q.push_back(s.idx[j]);
          nxt.push_back(q);
        }
      pats = nxt;
    }
    sosPattern = pats;
  }
  for (size_t k = 0; k < iv.size(); k++) cur[k] = M.xl[iv[k]];
  bool bad = false;
  while (true) {
    for (size_t k = 0; k < iv.size(); k++) lo[iv[k]] = hi[iv[k]] = cur[k];
    for (auto &pat : sosPattern) {
      std::vector<double> l2 = lo, h2 = hi;
      bool skip = false;
      for (int j : pat) {
        if (l2[j] > 0 || h2[j] < 0) { skip = true; break; }
        l2[j] = h2[j] = 0;
      }
      if (skip) continue;
      R.assignments++;
      double obj, mg, lam;
      std::vector<double> x, ce;
      int st = solveConvexNlp(M, l2, h2, obj, x, mg, lam, &ce);
      R.nlps++;
      if (st == 2) { bad = true; continue; }
      if (st == 1) { if (mg < 1e-3) bad = true; continue; }
      R.feasibleAssignments++;
      if (lam > 1e3) bad = true;
      if (R.feas.size() < 400) { R.feas.push_back(x); R.assignObj.push_back(obj); }
      double vv;
      if (R.feas.size() < 400 && M.violation(ce.data(), vv) && vv < 1e-9 && M.intViol(ce.data()) == 0) { R.feas.push_back(ce); double fo; M.f.eval(ce.data(), fo); R.assignObj.push_back(fo); }
      if (R.status == 1 || obj < R.obj) { R.second = R.obj; R.obj = obj; R.x = x; R.lamSum = lam; R.status = 0; }
      else if (obj < R.second) R.second = obj;
    }
    size_t k = 0;
    while (k < iv.size()) {
      cur[k] += 1;
      if (cur[k] <= M.xu[iv[k]] + 1e-9) break;
      cur[k] = M.xl[iv[k]];
      k++;
    }
    if (k == iv.size()) break;
    if (R.assignments > 6000) { bad = true; break; }
  }
  if (bad) R.status = 2;
  return R;
}

// ---------------------------------------------------------------- dispatcher
static std::map<std::string, CaseFn> &modes() { static std::map<std::string, CaseFn> m; return m; }
void registerMode(const std::string &mode, CaseFn fn) { modes()[mode] = fn; }
int dispatch(const std::string &mode, uint64_t seed, long from, long to, const std::map<std::string, std::string> &args) {
  auto it = modes().find(mode);
  if (it == modes().end()) { fprintf(stderr, "unknown mode %s\n", mode.c_str()); return 3; }
  for (long k = from; k < to; k++) {
    ev_begin(std::to_string(k));
    it->second(seed, k, args);
    ev_end(std::to_string(k), "ok");
  }
  return 0;
}
}  // namespace mon
