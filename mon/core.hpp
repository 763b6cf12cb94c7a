// Core of the monitors: event channel, PRNG, random MINLP models with exact derivatives,
// an instrumented TMINLP (callback-contract monitor, fault injection), and an independent reference solver.
#ifndef MON_CORE_HPP
#define MON_CORE_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <algorithm>
#include "BonTMINLP.hpp"
#include "IpIpoptApplication.hpp"

namespace mon {

// ------------------------------------------------------------------ PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }  // inclusive
  bool p(double q) { return u() < q; }
  // "nice" number with few digits
  double nice(double a, double b, double step = 0.25) { return std::round(u(a, b) / step) * step; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C15ULL + (a << 6) + (a >> 2));
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

// ------------------------------------------------------------------ event channel
// One line per event on the event descriptor. Solver chatter on stdout/stderr is redirected by the runner.
void ev_open(int fd);
void ev_begin(const std::string &id);
void ev_end(const std::string &id, const std::string &status);
// violation: key is a stable classification, detail free text
void ev_viol(const std::string &key, const std::string &detail);
void ev_obs(const std::string &key, long count = 1);       // counted observation
void ev_state(const std::string &key, const std::string &val);  // distinct value of an observed state
void ev_note(const std::string &text);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
extern long g_viol_count;

// ------------------------------------------------------------------ model
enum Phi { SQ = 0, EXP, NLOG, P4, HYP, SOFTP, LIN_DUMMY, SIN, NPHI };
struct Term {
  double c;
  int phi;
  double b;
  std::vector<int> idx;
  std::vector<double> a;
  double arg(const double *x) const {
    double t = b;
    for (size_t k = 0; k < idx.size(); k++) t += a[k] * x[idx[k]];
    return t;
  }
};
bool phi_eval(int phi, double t, double &v, double &d1, double &d2);

struct Func {
  double c0 = 0;
  std::vector<std::pair<int, double>> lin;
  std::vector<Term> terms;
  bool linear() const { return terms.empty(); }
  bool eval(const double *x, double &v) const;
  bool grad(const double *x, std::vector<double> &g) const;  // dense
  std::vector<int> support() const;
};

struct Model {
  std::string name;
  int n = 0, m = 0;
  std::vector<int> type;  // 0 continuous, 1 binary, 2 integer
  std::vector<double> xl, xu, gl, gu, x0;
  Func f;
  std::vector<Func> g;
  bool fortran = false;
  bool declLinObj = false;  // declare hasLinearObjective when true
  bool convex = true;
  // structure
  std::vector<std::vector<int>> jac;                 // per row column list
  std::vector<std::pair<int, int>> hess;             // (row>=col)
  // extras
  struct Sos { int type; int prio; std::vector<int> idx; std::vector<double> w; };
  std::vector<Sos> sos;
  std::vector<int> prio, dir;
  std::vector<double> upPs, downPs;
  bool hints() const { return !prio.empty() || !dir.empty() || !upPs.empty(); }
  bool hasUB = false;  // alternate upper bounding objective
  Func fub;
  void finish();  // build structure
  int nInt() const { int k = 0; for (int t : type) k += t != 0; return k; }
  int nnzJac() const { int k = 0; for (auto &r : jac) k += (int)r.size(); return k; }
  // max violation of bounds+constraints at x (absolute)
  bool violation(const double *x, double &vmax, int *where = nullptr) const;
  double intViol(const double *x) const;
  std::string describe() const;
};
const double INFB = 1e20;

struct GenOpts {
  int maxInt = 4, maxCont = 4, maxCons = 5;
  double pInfeasible = 0.08, pPure = 0.25, pNoInt = 0.03, pSos = 0.0, pInfBounds = 0.15, pEq = 0.2;
  double pBranchInfo = 0.0, pUB = 0.0;
  bool nonconvex = false;
  int domainCap = 48;
  double pLinObj = 0.3, pZeroOpt = 0.1, pFreeRow = 0.03, pTwoSided = 0;
};
Model genConvex(uint64_t seed, const GenOpts &o);
// pure integer, dense sums of squares: larger search trees; optimum by enumeration (feasible: whether a point exists)
Model genLattice(uint64_t seed, int maxInt, double &optimum, bool &feasible, std::vector<double> &best);
Model genNonconvex(uint64_t seed, const GenOpts &o);

// ------------------------------------------------------------------ reference solver
struct Ref {
  int status = 0;  // 0 optimal found, 1 infeasible, 2 inconclusive
  double obj = 0, lamSum = 0;
  std::vector<double> x;
  long assignments = 0, feasibleAssignments = 0, nlps = 0;
  std::vector<std::vector<double>> feas;  // feasible points (all constraints, ints integral)
  std::vector<double> assignObj;          // optimum per feasible assignment
  double second = 1e300;
  double tol() const { return 2e-4 * (1 + std::fabs(obj)) + 2e-5 * lamSum; }
};
// exhaustively enumerate the integers; continuous part by direct Ipopt (convex models only)
Ref reference(const Model &M, bool honourSos = true);
// convex NLP over the continuous variables with the listed bounds (all n variables may be free)
// returns 0 optimal, 1 infeasible, 2 unknown; margin: phase-1 optimum (max violation), lam: sum |mult|
int solveConvexNlp(const Model &M, const std::vector<double> &lo, const std::vector<double> &hi, double &obj,
                   std::vector<double> &x, double &margin, double &lam, std::vector<double> *centre = nullptr);

// ------------------------------------------------------------------ instrumented TMINLP
struct FaultPlan {
  // fail the k-th call (1-based, counted over the whole life) of the given callback kind; 0 none
  enum Kind { F = 1, GRAD, G, JAC, H, ANY };
  int kind = 0;
  long from = 0, to = 0;  // fail calls in [from,to]
  bool nan = false;       // instead of returning false, produce NaN (F / G only)
  bool atRegion = false;  // fail whenever x[var] in [rlo,rhi]
  int var = 0;
  double rlo = 0, rhi = 0;
};
struct FinalCall { int status; bool hasX; std::vector<double> x; double obj; };

class MTMINLP : public Bonmin::TMINLP {
 public:
  explicit MTMINLP(const Model &m, bool monitorNewX = true);
  virtual ~MTMINLP();
  Model M;
  FaultPlan fault;
  bool monitorContract = true;
  bool monitorNewX;
  long calls[8] = {0, 0, 0, 0, 0, 0, 0, 0};
  long totalCalls = 0, evalLimit = 80000;
  long faultsInjected = 0;
  std::vector<FinalCall> finals;
  std::function<void(long)> onCall;  // called at every evaluation with the running count
  std::map<std::string, long> contractViol;  // key -> count
  std::string firstContract;
  long ubCalls = 0, ubFailFrom = 0, ubFailTo = 0;  // which calls of the alternate objective fail
  std::vector<std::pair<double, std::vector<double>>> ubSeen;

  typedef Ipopt::Index Index;
  typedef Ipopt::Number Number;
  bool get_nlp_info(Index &n, Index &m, Index &nj, Index &nh, Ipopt::TNLP::IndexStyleEnum &st) override;
  bool get_scaling_parameters(Number &os, bool &ux, Index n, Number *xs, bool &ug, Index m, Number *gs) override;
  bool get_variables_types(Index n, VariableType *t) override;
  bool get_variables_linearity(Index n, Ipopt::TNLP::LinearityType *t) override;
  bool get_constraints_linearity(Index m, Ipopt::TNLP::LinearityType *t) override;
  bool get_bounds_info(Index n, Number *xl, Number *xu, Index m, Number *gl, Number *gu) override;
  bool get_starting_point(Index n, bool ix, Number *x, bool iz, Number *zl, Number *zu, Index m, bool il,
                          Number *lam) override;
  bool eval_f(Index n, const Number *x, bool nx, Number &v) override;
  bool eval_grad_f(Index n, const Number *x, bool nx, Number *g) override;
  bool eval_g(Index n, const Number *x, bool nx, Index m, Number *g) override;
  bool eval_jac_g(Index n, const Number *x, bool nx, Index m, Index nele, Index *ir, Index *jc, Number *v) override;
  bool eval_h(Index n, const Number *x, bool nx, Number of, Index m, const Number *lam, bool nl, Index nele,
              Index *ir, Index *jc, Number *v) override;
  bool eval_gi(Index n, const Number *x, bool nx, Index i, Number &gi) override;
  bool eval_grad_gi(Index n, const Number *x, bool nx, Index i, Index &nele, Index *jc, Number *v) override;
  void finalize_solution(Bonmin::TMINLP::SolverReturn st, Index n, const Number *x, Number obj) override;
  const BranchingInfo *branchingInfo() const override;
  const SosInfo *sosConstraints() const override;
  bool hasUpperBoundingObjective() override { return M.hasUB; }
  bool eval_upper_bound_f(Index n, const Number *x, Number &v) override;
  bool hasLinearObjective() override { return M.declLinObj; }
  void flushContract();  // turn recorded contract breaches into violation events

  SosInfo sos_;
  BranchingInfo br_;
  bool scaling = false;

 private:
  std::vector<double> lastX_;
  bool haveX_ = false;
  bool pre(int kind, Index n, const Number *x, bool nx, const char *who);
  void breach(const std::string &key, const std::string &detail);
};

// scratch directory for the current case (created by the runner, cwd)
int dispatch(const std::string &mode, uint64_t seed, long from, long to, const std::map<std::string, std::string> &args);
typedef void (*CaseFn)(uint64_t seed, long k, const std::map<std::string, std::string> &args);
void registerMode(const std::string &mode, CaseFn fn);
struct ModeReg { ModeReg(const char *m, CaseFn f) { registerMode(m, f); } };

}  // namespace mon
#endif
