// C18: every choice of a branching variable is watched from the outside.
#include "solve.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "BonChooseVariable.hpp"
#include "BonRandomChoice.hpp"
#include <memory>
using namespace mon;
using namespace Bonmin;
namespace {
struct Watch {
  const Model *M;
  const Ref *R;
  std::string ctx, cfg, rule;
};
struct Box {
  std::vector<double> l, u;
  explicit Box(const OsiSolverInterface *s) : l(s->getColLower(), s->getColLower() + s->getNumCols()), u(s->getColUpper(), s->getColUpper() + s->getNumCols()) {}
  bool has(const std::vector<double> &x) const {
    for (size_t i = 0; i < x.size(); i++) if (x[i] < l[i] - 1e-7 || x[i] > u[i] + 1e-7) return false;
    return true;
  }
  std::string diff(const Box &o) const {
    for (size_t i = 0; i < l.size(); i++)
      if (l[i] != o.l[i] || u[i] != o.u[i]) return fmt("column %d is in [%g,%g], was in [%g,%g]", (int)i, o.l[i], o.u[i], l[i], u[i]);
    return "";
  }
};
// a known point of the box that beats the cutoff and that keep() does not keep
template <class F> int lost(const Watch &w, const Box &b, double cutoff, F keep) {
  for (size_t i = 0; i < w.R->feas.size(); i++) {
    const std::vector<double> &x = w.R->feas[i];
    double f = w.R->assignObj[i], tol = 2e-4 * (1 + std::fabs(f)) + 2e-5 * w.R->lamSum;
    if (b.has(x) && f < cutoff - tol && !keep(x)) return (int)i;
  }
  return -1;
}
std::string xs(const double *x, int n) {
  std::string s = "[";
  for (int i = 0; i < n; i++) s += fmt("%.9g ", x[i]);
  return s + "]";
}
template <class B> class Spy : public B {
 public:
  std::shared_ptr<Watch> w;
  Spy(const B &b, std::shared_ptr<Watch> ww) : B(b), w(ww) {}
  Spy(const Spy &o) : B(o), w(o.w) {}
  OsiChooseVariable *clone() const override { return new Spy(*this); }
  int setupList(OsiBranchingInformation *info, bool init) override {
    const OsiSolverInterface *s = info->solver_;
    Box b0(s);
    std::vector<double> x(info->solution_, info->solution_ + w->M->n);
    int rc = B::setupList(info, init);
    std::string at = w->ctx + " " + w->rule + fmt(" setupList returned %d; ", rc);
    std::string d = b0.diff(Box(s));
    ev_obs("lists");
    if (!d.empty()) ev_viol("choose-changes-bounds", at + d + "; " + w->cfg);
    if (rc >= 0) {
      int frac = 0, sure = 0;
      for (int i = 0; i < w->M->n; i++) if (w->M->type[i]) { double e = std::fabs(x[i] - std::floor(x[i] + 0.5)); frac += e > 1e-7; sure += e > 1e-5; }
      if (rc < sure || rc > frac) ev_viol("choose-miscounts", at + fmt("%d unsatisfied at ", sure) + xs(x.data(), w->M->n) + "; " + w->cfg);
    } else {
      ev_obs("lists_infeasible");
      int p = lost(*w, b0, info->cutoff_, [](const std::vector<double> &) { return false; });
      if (p >= 0) ev_viol("choose-false-infeasible", at + fmt("the node contains a point of value %.9g, cutoff %.9g: ", w->R->assignObj[p], info->cutoff_) + xs(w->R->feas[p].data(), w->M->n) + "; " + w->cfg);
    }
    return rc;
  }
  int chooseVariable(OsiSolverInterface *s, OsiBranchingInformation *info, bool fix) override {
    const Model &M = *w->M;
    Box b0(s);
    std::vector<double> x(info->solution_, info->solution_ + M.n);
    double cutoff = info->cutoff_;
    int rc = B::chooseVariable(s, info, fix);
    Box b1(s);
    // a solution found on the way is a new cutoff
    if (this->goodSolution()) cutoff = std::min(cutoff, this->goodObjectiveValue());
    cutoff = std::min(cutoff, info->cutoff_);
    ev_obs("choices");
    ev_obs("rule:" + w->rule);
    ev_state("choice", w->rule + fmt("/%d/%d", rc, fix));
    std::string at = w->ctx + " " + w->rule + fmt(" at depth %d chooseVariable(fix %d) returned %d; ", info->depth_, fix, rc);
    if (!fix || rc == 0 || rc == 1) {
      std::string d = b0.diff(b1);
      ev_obs("bounds_compared");
      if (!d.empty()) ev_viol("choose-changes-bounds", at + d + "; " + w->cfg);
    } else if (rc > 1) {
      ev_obs("fixings");
      for (size_t i = 0; i < b0.l.size(); i++)
        if (b1.l[i] < b0.l[i] || b1.u[i] > b0.u[i]) { ev_viol("choose-changes-bounds", at + b0.diff(b1) + "; " + w->cfg); break; }
      int p = lost(*w, b0, cutoff, [&](const std::vector<double> &y) { return b1.has(y); });
      if (p >= 0) ev_viol("choose-false-fixing", at + fmt("a point of value %.9g is cut off, cutoff %.9g: ", w->R->assignObj[p], cutoff) + xs(w->R->feas[p].data(), M.n) + "; " + b0.diff(b1) + "; " + w->cfg);
    }
    if (rc == -1) {
      ev_obs("infeasible_nodes");
      int p = lost(*w, b0, cutoff, [](const std::vector<double> &) { return false; });
      if (p >= 0) ev_viol("choose-false-infeasible", at + fmt("the node contains a point of value %.9g, cutoff %.9g: ", w->R->assignObj[p], cutoff) + xs(w->R->feas[p].data(), M.n) + "; " + w->cfg);
    }
    auto column = [&](int o) { return o >= 0 && o < s->numberObjects() ? s->object(o)->columnNumber() : -1; };
    if (rc == 0) {
      int c = column(this->bestObjectIndex());
      if (c < 0 || c >= M.n || !M.type[c]) ev_viol("choose-no-object", at + fmt("object %d column %d; ", this->bestObjectIndex(), c) + w->cfg);
      else {
        double e = std::fabs(x[c] - std::floor(x[c] + 0.5));
        ev_obs("chosen_checked");
        if (e < 1e-9) ev_viol("choose-satisfied", at + fmt("column %d has value %.12g; ", c, x[c]) + w->cfg);
        if (b1.l[c] >= b1.u[c]) ev_viol("choose-fixed-column", at + fmt("column %d is fixed to %g; ", c, b1.l[c]) + w->cfg);
        if (this->bestWhichWay() < 0 || this->bestWhichWay() > 1) ev_viol("choose-no-way", at + fmt("way %d; ", this->bestWhichWay()) + w->cfg);
      }
    }
    if (rc == 1) {
      double e = 0;
      for (int i = 0; i < M.n; i++) if (M.type[i]) e = std::max(e, std::fabs(x[i] - std::floor(x[i] + 0.5)));
      if (e > 1e-5) ev_viol("choose-overlooks", at + fmt("integrality violation %g; ", e) + w->cfg);
    }
    if (rc > 1) {
      int c = column(this->firstForcedObjectIndex()), way = this->firstForcedWhichWay();
      if (c < 0 || c >= M.n || way < 0) ev_viol("choose-no-object", at + fmt("forced object %d way %d; ", this->firstForcedObjectIndex(), way) + w->cfg);
      else {
        ev_obs("forced_checked");
        int p = lost(*w, b0, cutoff, [&](const std::vector<double> &y) { return way == 0 ? y[c] <= std::floor(x[c]) + 1e-6 : y[c] >= std::ceil(x[c]) - 1e-6; });
        if (p >= 0) ev_viol("choose-false-fixing", at + fmt("column %d at %.9g is forced %s although a point of value %.9g lies on the other side, cutoff %.9g: ", c, x[c], way ? "up" : "down", w->R->assignObj[p], cutoff) + xs(w->R->feas[p].data(), M.n) + "; " + w->cfg);
      }
    }
    if (this->goodSolution() && this->goodObjectiveValue() < 1e30) {
      ev_obs("good_solutions");
      double v, f;
      const double *y = this->goodSolution();
      if (!M.violation(y, v) || v > 2e-4 || M.intViol(y) > 1.1e-6) ev_viol("choose-bad-solution", at + fmt("violation %.3g, integrality %.3g; ", v, M.intViol(y)) + w->cfg);
      else if (M.f.eval(y, f) && std::fabs(f - this->goodObjectiveValue()) > 1e-4 * (1 + std::fabs(f))) ev_viol("choose-bad-solution", at + fmt("value %.9g, f(x) = %.9g; ", this->goodObjectiveValue(), f) + w->cfg);
    }
    return rc;
  }
};
struct Setup : BonminSetup {
  bool spy(std::shared_ptr<Watch> w) {
    OsiChooseVariable *n = nullptr, *c = branchingMethod_;
    if (auto *b = dynamic_cast<BonChooseVariable *>(c)) n = new Spy<BonChooseVariable>(*b, w);
    else if (auto *b = dynamic_cast<BonRandomChoice *>(c)) n = new Spy<BonRandomChoice>(*b, w);
    else if (auto *b = dynamic_cast<OsiChooseStrong *>(c)) n = new Spy<OsiChooseStrong>(*b, w);
    else if (c) n = new Spy<OsiChooseVariable>(*c, w);
    if (!n) return false;
    delete branchingMethod_;
    branchingMethod_ = n;
    return true;
  }
};
void caseChoose(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  Rng r(mix(mix(seed, 18), k));
  GenOpts g;
  g.maxInt = 5, g.maxCont = 3, g.maxCons = 5, g.domainCap = 120, g.pNoInt = 0, g.pInfBounds = g.pFreeRow = 0;
  Model M;
  Ref R;
  if (argl(a, "lat", 0)) {
    bool feas;
    M = genLattice(mix(mix(seed, 180), k), (int)argl(a, "maxint", 6), R.obj, feas, R.x);
    R.status = feas ? 0 : 1;
    if (feas) R.feas.push_back(R.x), R.assignObj.push_back(R.obj);
  } else if (!genWithRef(seed, k + 180000, g, M, R)) { ev_obs("gen_inconclusive"); return; }
  typedef std::vector<std::string> V;
  Config c;
  bool bb = r.p(0.9);
  if (!bb) c.algo = r.pick(V{"B-QG", "B-Hyb", "B-Ecp"});
  std::string rule = bb ? r.pick(V{"nlp-strong-branching", "nlp-strong-branching", "qp-strong-branching", "lp-strong-branching", "lp-strong-branching", "osi-strong", "osi-simple", "random"}) : r.pick(V{"osi-strong", "osi-simple"});
  c.set("variable_selection", rule);
  c.set("number_strong_branch", std::to_string(r.i(1, 8)));
  if (r.p(0.6)) c.set("number_before_trust", std::to_string(r.i(0, 6)));
  if (r.p(0.4)) c.set("number_strong_branch_root", r.p(0.5) ? "1000" : std::to_string(r.i(1, 6)));
  if (r.p(0.4)) c.set("min_number_strong_branch", std::to_string(r.i(0, 3)));
  if (r.p(0.4)) c.set("number_look_ahead", std::to_string(r.i(0, 4)));
  if (r.p(0.4)) c.set("candidate_sort_criterion", r.pick(V{"best-ps-cost", "worst-ps-cost", "most-fractional", "least-fractional"}));
  if (r.p(0.4)) c.set("setup_pseudo_frac", r.pick(V{"0", "0.5", "1"}));
  if (r.p(0.4)) c.set("maxmin_crit_no_sol", r.pick(V{"0", "0.7", "1"}));
  if (r.p(0.4)) c.set("maxmin_crit_have_sol", r.pick(V{"0", "0.1", "1"}));
  if (r.p(0.4)) c.set("trust_strong_branching_for_pseudo_cost", r.pick(V{"yes", "no"}));
  if (rule == "lp-strong-branching") {
    if (r.p(0.4)) c.set("lp_strong_warmstart_method", r.pick(V{"Basis", "Clone"}));
  }
  if (r.p(0.4)) c.set("warm_start", r.pick(V{"none", "optimum", "interior_point"}));
  for (const char *h : {"heuristic_dive_fractional", "heuristic_dive_vectorLength", "heuristic_dive_MIP_fractional", "heuristic_dive_MIP_vectorLength", "heuristic_feasibility_pump"})
    if (r.p(0.7)) c.set(h, "no");
  if (r.p(0.4)) c.set("node_comparison", r.pick(V{"best-bound", "depth-first", "breadth-first", "dynamic"}));
  if (r.p(0.3) && R.status == 0) c.set("cutoff", fmt("%.9g", R.obj + r.u(0, 4) * (0.5 + std::fabs(R.obj))));
  c.set("time_limit", "8");
  Ipopt::SmartPtr<MTMINLP> t = new MTMINLP(M);
  std::shared_ptr<Watch> w(new Watch);
  w->M = &M, w->R = &R, w->ctx = M.name, w->cfg = c.str(), w->rule = rule;
  if (a.count("verbose")) ev_note(M.describe() + " cfg " + c.str());
  Ipopt::SmartPtr<TMINLP> keep = GetRawPtr(t);
  Setup b;
  Bab babRun;
  bool spied = false;
  std::string e = guarded([&] {
    b.initializeOptionsAndJournalist();
    applyOpts(b, c);
    b.initialize(keep);
    spied = b.spy(w);
    babRun(b);
  });
  ev_obs("choose_runs");
  if (!spied) { ev_obs("not_spied"); return; }
  if (!e.empty()) { ev_obs("choose_runs_stopped"); return; }
}
ModeReg r1("choose", caseChoose);
}  // namespace
