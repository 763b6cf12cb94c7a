// C15: every call of a primal heuristic is watched from the outside.
#include "solve.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "CbcHeuristic.hpp"
#include "CbcModel.hpp"
#include <memory>
using namespace mon;
using namespace Bonmin;
namespace {
struct Watch {
  const Model *M;
  std::string ctx, cfg;
  BonminSetup *setup = nullptr;
  Rng *r;
  std::map<std::string, int> calls;
  bool tighten = false;
};
std::string xs(const double *x, int n) {
  std::string s = "[";
  for (int i = 0; i < n; i++) s += fmt("%.9g ", x[i]);
  return s + "]";
}
struct Bounds {
  std::vector<double> l, u, rl, ru;
  explicit Bounds(const OsiSolverInterface *s) {
    if (!s) return;
    l.assign(s->getColLower(), s->getColLower() + s->getNumCols()), u.assign(s->getColUpper(), s->getColUpper() + s->getNumCols());
    rl.assign(s->getRowLower(), s->getRowLower() + s->getNumRows()), ru.assign(s->getRowUpper(), s->getRowUpper() + s->getNumRows());
  }
  std::string diff(const Bounds &o) const {
    if (l.size() != o.l.size()) return fmt("%d columns instead of %d", (int)o.l.size(), (int)l.size());
    if (rl.size() != o.rl.size()) return fmt("%d rows instead of %d", (int)o.rl.size(), (int)rl.size());
    for (size_t i = 0; i < l.size(); i++)
      if (l[i] != o.l[i] || u[i] != o.u[i]) return fmt("column %d [%g,%g] instead of [%g,%g]", (int)i, o.l[i], o.u[i], l[i], u[i]);
    for (size_t i = 0; i < rl.size(); i++)
      if (rl[i] != o.rl[i] || ru[i] != o.ru[i]) return fmt("row %d [%g,%g] instead of [%g,%g]", (int)i, o.rl[i], o.ru[i], rl[i], ru[i]);
    return "";
  }
};
class Spy : public CbcHeuristic {
 public:
  CbcHeuristic *in;
  std::shared_ptr<Watch> w;
  std::string id;
  Spy(CbcHeuristic *h, std::shared_ptr<Watch> ww, const std::string &i) : CbcHeuristic(*h), in(h), w(ww), id(i) {}
  Spy(const Spy &o) : CbcHeuristic(o), in(o.in->clone()), w(o.w), id(o.id) {}
  ~Spy() { delete in; }
  CbcHeuristic *clone() const override { return new Spy(*this); }
  void resetModel(CbcModel *m) override { model_ = m; in->resetModel(m); }
  void setModel(CbcModel *m) override { CbcHeuristic::setModel(m); in->setModel(m); }
  void validate() override { in->validate(); }
  bool shouldHeurRun(int f) override { return in->shouldHeurRun(f); }
  int solution(double &value, double *x) override {
    if (w->tighten && w->r->p(0.3)) {  // the same call with an incumbent that is hard to beat
      double v = w->M->n ? value - std::fabs(value) * w->r->u() - w->r->u(0, 5) : value;
      std::vector<double> y(x, x + model_->getNumCols());
      if (value < 1e30) watched(v, y.data());
    }
    return watched(value, x);
  }
  int watched(double &value, double *x) {
    const Model &M = *w->M;
    OsiTMINLPInterface *nlp = w->setup->nonlinearSolver();
    Bounds b0(model_->solver()), n0(nlp);
    double before = value;
    std::vector<double> keep(x, x + model_->getNumCols());
    bool node = model_->getNodeCount() > 0;
    int rc = in->solution(value, x);
    w->calls[id]++;
    ev_obs("heuristic_calls");
    ev_obs("calls:" + id);
    if (node) ev_obs("calls_in_tree");
    std::string at = w->ctx + " " + id + fmt(" at node %d returned %d; ", model_->getNodeCount(), rc);
    Bounds b1(model_->solver()), n1(nlp);
    std::string d = b0.diff(b1);
    if (!d.empty()) ev_viol("heuristic-leaves-bounds:" + id, at + d + "; " + w->cfg);
    d = n0.diff(n1);
    if (!d.empty()) ev_viol("heuristic-leaves-nlp-bounds:" + id, at + d + "; " + w->cfg);
    ev_obs("bounds_compared");
    if (rc <= 0) return rc;
    ev_obs("heuristic_solutions");
    ev_obs("solutions:" + id);
    double v, f;
    int wh = 0;
    bool ok = M.violation(x, v, &wh);
    double tol = 1e-5;
    if (wh >= M.n) { double a = std::fabs(M.gl[wh - M.n]) < 1e19 ? std::fabs(M.gl[wh - M.n]) : 0, b = std::fabs(M.gu[wh - M.n]) < 1e19 ? std::fabs(M.gu[wh - M.n]) : 0; tol *= 1 + std::max(a, b); }
    if (!ok || v > tol) ev_viol("heuristic-infeasible:" + id, at + fmt("violation %.3g at %d x=", v, wh) + xs(x, M.n) + " " + w->cfg);
    else if (M.intViol(x) > 1.1e-6) ev_viol("heuristic-fractional:" + id, at + fmt("integrality %.3g x=", M.intViol(x)) + xs(x, M.n) + " " + w->cfg);
    else if (M.f.eval(x, f) && !(std::fabs(f - value) <= 1e-5 * (1 + std::fabs(f)))) ev_viol("heuristic-misprices:" + id, at + fmt("value %.10g, f(x) = %.10g; x=", value, f) + xs(x, M.n) + " " + w->cfg);
    if (!(value < before)) ev_viol("heuristic-no-better:" + id, at + fmt("value %.10g, incumbent %.10g; ", value, before) + w->cfg);
    if (rc == 1 && model_->getNumCols() > M.n) ev_obs("heuristic_with_extra_columns");
    return rc;
  }
};
void caseHeur(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  Rng r(mix(mix(seed, 15), k));
  GenOpts g;
  g.maxInt = 5, g.maxCont = 3, g.maxCons = 5, g.domainCap = 200, g.pNoInt = 0;
  bool bb = r.p(0.8);
  if (!bb) g.pInfBounds = g.pFreeRow = 0;
  Config c = randConfig(r, r.i(0, 1), bb ? "B-BB" : r.pick(std::vector<std::string>{"B-QG", "B-Hyb", "B-Ecp", "B-OA"}).c_str());
  plainBranching(c, r);
  for (auto it = c.opts.begin(); it != c.opts.end();) it = it->first.find("heuristic") != std::string::npos || it->first == "pump_for_minlp" ? c.opts.erase(it) : it + 1;
  std::vector<std::string> hs = {"heuristic_dive_fractional", "heuristic_dive_vectorLength", "heuristic_dive_MIP_fractional", "heuristic_dive_MIP_vectorLength",
                                 "heuristic_feasibility_pump", "heuristic_RINS", "fix_and_solve_heuristic", "pump_for_minlp", "MILP_rounding_heuristic"};
  for (auto &h : hs) if (r.p(0.3)) c.set(h, "yes"); else c.set(h, "no");
  c.set("time_limit", "6");
  if (r.p(0.5)) c.set("node_limit", std::to_string(r.i(3, 30)));
  Model M;
  Ref R;
  if (!genWithRef(seed, k + 150000, g, M, R)) { ev_obs("gen_inconclusive"); return; }
  Ipopt::SmartPtr<MTMINLP> t = new MTMINLP(M);
  std::shared_ptr<Watch> w(new Watch);
  w->M = &M, w->ctx = M.name, w->cfg = c.str(), w->r = &r, w->tighten = r.p(0.5);
  if (a.count("verbose")) ev_note(M.describe() + " cfg " + c.str());
  Hooks h;
  h.afterInit = [&](BonminSetup &b) {
    w->setup = &b;
    for (auto &m : b.heuristics()) m.heuristic = new Spy(m.heuristic, w, m.id);
  };
  Outcome o = runBonmin(GetRawPtr(t), c, &h);
  ev_obs("heur_runs");
  if (o.threw) { ev_obs("heur_runs_stopped"); return; }
  oracleSolution(M, o, *t, M.name, c);
  oracleOptimal(M, R, o, *t, M.name, c);
}
ModeReg r1("heur", caseHeur);
}  // namespace
