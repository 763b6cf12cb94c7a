#include "cutspy.hpp"
#include "OsiSolverInterface.hpp"
#include "OsiCuts.hpp"
#include "CoinPackedMatrix.hpp"
#include "BonCbc.hpp"
#include "BonBabInfos.hpp"
using namespace Bonmin;
namespace mon {
static thread_local int g_prev = 0;
static double pt(const CutWatch &w, size_t p, int j) {
  const std::vector<double> &x = w.R->feas[p];
  return j < (int)x.size() ? x[j] : w.R->assignObj[p];
}
static bool rowViolated(const CutWatch &w, size_t p, int n, const int *idx, const double *el, double lb, double ub, double &v) {
  double s = 0, mag = 1;
  for (int k = 0; k < n; k++) {
    if (idx[k] > w.M->n) return false;
    double t = el[k] * pt(w, p, idx[k]);
    s += t;
    mag += std::fabs(t) + 1e-2 * std::fabs(el[k]);
  }
  double tol = 2e-6 * mag;
  if (lb > -1e20) tol += 1e-6 * std::min(std::fabs(lb), 1e6);
  v = 0;
  if (lb > -1e20 && s < lb - tol) { v = lb - s; return true; }
  if (ub < 1e20 && s > ub + tol) { v = s - ub; return true; }
  return false;
}
static bool inBounds(const CutWatch &w, size_t p, const OsiSolverInterface &si) {
  const double *l = si.getColLower(), *u = si.getColUpper();
  int n = std::min(si.getNumCols(), w.M->n + 1);
  for (int j = 0; j < n; j++) {
    double x = pt(w, p, j);
    if (x < l[j] - 1e-9 || x > u[j] + 1e-9) return false;
  }
  return true;
}
// integer columns only: the box that branching chose
static bool inIntBox(const CutWatch &w, size_t p, const OsiSolverInterface &si) {
  const double *l = si.getColLower(), *u = si.getColUpper();
  for (int j = 0; j < w.M->n; j++) {
    if (!w.M->type[j]) continue;
    double x = pt(w, p, j);
    if (x < l[j] - 1e-9 || x > u[j] + 1e-9) return false;
  }
  return true;
}
static double cutoffOf(const OsiSolverInterface &si) {
  double c;
  si.getDblParam(OsiDualObjectiveLimit, c);
  return c;
}
static bool worthy(const CutWatch &w, size_t p, double cutoff) {
  return w.R->assignObj[p] < cutoff - 1e-3 * (1 + std::fabs(cutoff) * (cutoff < 1e20));
}
static std::string ptStr(const CutWatch &w, size_t p) {
  std::string s = "(";
  for (double v : w.R->feas[p]) s += fmt("%.8g ", v);
  return s + fmt("; f=%.8g)", w.R->assignObj[p]);
}
void checkLp(const OsiSolverInterface &si, CutWatch &w, const char *where, bool useCutoff) {
  const CoinPackedMatrix *m = si.getMatrixByRow();
  const double *lo = si.getRowLower(), *up = si.getRowUpper();
  double cutoff = useCutoff ? cutoffOf(si) : 1e300;
  w.lpsSeen++;
  w.rowsSeen += si.getNumRows();
  for (size_t p = 0; p < w.R->feas.size(); p++) {
    if (!worthy(w, p, cutoff) || !inBounds(w, p, si)) continue;
    w.pointChecks++;
    for (int i = 0; i < si.getNumRows(); i++) {
      double v;
      int s = m->getVectorStarts()[i], l = m->getVectorLengths()[i];
      if (rowViolated(w, p, l, m->getIndices() + s, m->getElements() + s, lo[i], up[i], v)) {
        if (w.reported++ < 3)
          ev_viol(std::string("relaxation-cuts-feasible:") + where, w.ctx + fmt(" row %d of the LP (%d rows) violated by %.3g at feasible point ", i, si.getNumRows(), v) + ptStr(w, p));
        return;
      }
    }
  }
}
void checkCut(const OsiRowCut &c, const OsiSolverInterface *si, CutWatch &w, const std::string &gen, double cutoff, bool) {
  w.cutsSeen++;
  w.perGen[gen]++;
  if (!c.globallyValid()) w.localCuts++;
  for (size_t p = 0; p < w.R->feas.size(); p++) {
    if (!worthy(w, p, cutoff)) continue;
    if (si && !c.globallyValid() && !inBounds(w, p, *si)) continue;
    if (si && c.globallyValid() && !inBounds(w, p, *si) && gen.find("OA") == std::string::npos && gen.find("Ecp") == std::string::npos && gen.find("ECP") == std::string::npos && gen.find("NLP") == std::string::npos) continue;
    w.pointChecks++;
    double v;
    const CoinPackedVector &r = c.row();
    if (rowViolated(w, p, r.getNumElements(), r.getIndices(), r.getElements(), c.lb(), c.ub(), v)) {
      if (w.reported++ < 3) {
        std::string s;
        for (int k = 0; k < r.getNumElements(); k++) s += fmt("%+.6g*x%d ", r.getElements()[k], r.getIndices()[k]);
        ev_viol("cut-removes-feasible:" + gen, w.ctx + fmt(" %s cut violated by %.3g (cutoff %.6g): %.8g <= ", c.globallyValid() ? "global" : "local", v, cutoff, c.lb()) + s + fmt("<= %.8g at feasible point ", c.ub()) + ptStr(w, p));
      }
      return;
    }
  }
}
void CutSpy::generateCuts(const OsiSolverInterface &si, OsiCuts &cs, const CglTreeInfo info) {
  int from = g_prev;
  if (from > cs.sizeRowCuts()) from = 0;
  double cutoff = cutoffOf(si);
  // the incumbent found so far also bounds what has to be kept
  if (BabInfo *bi = dynamic_cast<BabInfo *>(si.getAuxiliaryInfo())) {
    if (bi->babPtr()) cutoff = std::min(cutoff, bi->babPtr()->model().getCutoff());
    if (bi->hasSolution()) cutoff = std::min(cutoff, bi->mipBound() > 1e100 ? cutoff : cutoff);
  }
  bool alpha = si.getNumCols() > w_->M->n;
  if (id_ >= 0) {
    for (int i = from; i < cs.sizeRowCuts(); i++) checkCut(cs.rowCut(i), &si, *w_, w_->names[id_], cutoff, alpha);
    for (int i = 0; i < cs.sizeColCuts(); i++) w_->colCuts++;
  } else
    checkLp(si, *w_, "node", true);
  g_prev = cs.sizeRowCuts();
}
void installSpies(BonminSetup &b, CutWatch &w) {
  BabSetupBase::CuttingMethods l;
  g_prev = 0;
  auto mk = [&](int id) {
    BabSetupBase::CuttingMethod cm;
    cm.frequency = 1;
    cm.id = fmt("spy%d", id);
    cm.cgl = new CutSpy(&w, id);
    cm.atSolution = false;
    cm.normal = true;
    cm.always = false;
    return cm;
  };
  l.push_back(mk(-1));
  for (auto &c : b.cutGenerators()) {
    l.push_back(c);
    w.names.push_back(c.id);
    BabSetupBase::CuttingMethod s = mk((int)w.names.size() - 1);
    s.atSolution = c.atSolution;
    s.normal = c.normal;
    s.frequency = c.frequency;
    l.push_back(s);
  }
  b.cutGenerators() = l;
}

static void cutsCase(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  GenOpts g;
  g.pInfeasible = 0.02;
  g.pInfBounds = g.pFreeRow = 0;
  Model M; Ref R;
  if (!genWithRef(mix(seed, 21), k, g, M, R)) { ev_obs("gen_inconclusive"); return; }
  Rng r(mix(mix(seed, 22), k));
  static const char *al[] = {"B-OA", "B-QG", "B-Hyb", "B-Hyb", "B-Ecp", "B-iFP"};
  int level = argl(a, "level", -1) >= 0 ? (int)argl(a, "level", 0) : r.i(0, 2);
  std::string algo = al[r.i(0, 5)];
  Config c = randConfig(r, level, args(a, "algo", algo.c_str()).c_str());
  CutWatch w;
  w.M = &M; w.R = &R; w.ctx = M.name + " cfg: " + c.str();
  Ipopt::SmartPtr<MTMINLP> t = new MTMINLP(M);
  Hooks h;
  h.afterInit = [&](BonminSetup &b) {
    if (R.status == 0 && b.continuousSolver() && (OsiSolverInterface *)b.nonlinearSolver() != b.continuousSolver()) checkLp(*b.continuousSolver(), w, "initial", false);
    installSpies(b, w);
  };
  Outcome o = runBonmin(GetRawPtr(t), c, &h);
  ev_obs("solves");
  ev_obs("cuts_checked", w.cutsSeen);
  ev_obs("local_cuts", w.localCuts);
  ev_obs("lp_relaxations", w.lpsSeen);
  ev_obs("lp_rows", w.rowsSeen);
  ev_obs("point_checks", w.pointChecks);
  for (auto &q : w.perGen) { ev_obs("gen:" + q.first, q.second); ev_state("generator", q.first); }
  if (a.count("verbose")) ev_note(M.describe() + c.str() + fmt(" ref %.9g  out %.9g", R.obj, o.bestObj));
  t->flushContract();
  ev_obs("evaluations", t->totalCalls);
  if (o.threw) ev_note("EXC " + o.exc + " cfg " + c.str());
}
static ModeReg r1("cuts", cutsCase);
}  // namespace mon
