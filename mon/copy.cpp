// Copies of setups and of the problem's branching data (C11): a copy is solved together with its original, before or after
// it, and after the other one was destroyed; each must give the result of the problem.
#include "nlp.hpp"
#include <memory>
using namespace Bonmin;
using namespace Ipopt;
namespace mon {
namespace {
template <class T> std::vector<T> vec(const T *p, int n) { return p ? std::vector<T>(p, p + n) : std::vector<T>(); }
Outcome solveSetup(BonminSetup &s, int n) {
  Outcome o;
  Bab bb;
  std::string e = guarded([&] { bb(s); });
  if (!e.empty()) { o.threw = true; o.exc = e; return o; }
  o.mipStatus = bb.mipStatus(); o.bestObj = bb.bestObj(); o.bestBound = bb.bestBound(); o.nodes = bb.numNodes();
  if (bb.bestSolution()) { o.hasX = true; o.x.assign(bb.bestSolution(), bb.bestSolution() + n); }
  return o;
}
}  // namespace

static void copyCase(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  Rng r(mix(mix(seed, 71), k));
  GenOpts g;
  g.maxInt = 3; g.maxCont = 2; g.maxCons = 4;
  Model M; Ref R;
  Config c = randConfig(r, r.i(0, 1), args(a, "algo", "").c_str());
  if (c.algo != "B-BB") { g.pInfBounds = 0; g.pFreeRow = 0; }
  if (!genWithRef(mix(seed, 72), k, g, M, R)) { ev_obs("inconclusive"); return; }
  SmartPtr<MTMINLP> t = new MTMINLP(M);
  if (c.algo != "B-BB") plainBranching(c, r);
  std::string ctx = M.name;
  std::unique_ptr<BonminSetup> A(new BonminSetup);
  SmartPtr<TMINLP> keep = GetRawPtr(t);
  std::string e = guarded([&] { A->initializeOptionsAndJournalist(); applyOpts(*A, c); A->initialize(keep); });
  if (!e.empty()) { ev_note("setup threw " + e); return; }
  struct S { std::unique_ptr<BonminSetup> s; std::string how; int solves; };
  std::vector<S> all;
  all.push_back({std::move(A), "original", 0});
  std::string hist;
  int steps = 3 + r.i(0, 3), solves = 0;
  for (int q = 0; q < steps; q++) {
    int i = r.i(0, (int)all.size() - 1);
    int what = r.i(0, 4);
    if (q == steps - 1) what = 3;
    if (what <= 1 && all.size() < 3) {
      S n; n.solves = all[i].solves;
      int how = r.i(0, 2);
      hist += fmt(" copy%d of %d(%s)", how, i, all[i].how.c_str());
      e = guarded([&] {
        BonminSetup &o = *all[i].s;
        if (how == 0) { n.s.reset(dynamic_cast<BonminSetup *>(o.clone())); n.how = "clone"; }
        else {
          OsiTMINLPInterface *nlp = dynamic_cast<OsiTMINLPInterface *>(o.nonlinearSolver()->clone());
          n.how = how == 1 ? "clone-nlp" : "clone-prefix";
          n.s.reset(how == 1 ? o.clone(*nlp) : o.clone(*nlp, "bonmin."));
        }
      });
      if (!e.empty()) { ev_viol("copy-threw", ctx + " " + e + " history:" + hist + " cfg: " + c.str()); return; }
      ev_obs("setup_copies"); ev_obs("copied:" + n.how); ev_state("copy", n.how + "/" + c.algo);
      // the settings came along
      for (int p = 0; p < BabSetupBase::NumberIntParam; p++) {
        BabSetupBase::IntParameter ip = (BabSetupBase::IntParameter)p;
        if (n.s->getIntParameter(ip) != all[i].s->getIntParameter(ip)) { ev_viol("copy-differs", ctx + fmt(" integer parameter %d is %d in the copy, %d in the original,", p, n.s->getIntParameter(ip), all[i].s->getIntParameter(ip)) + hist + " cfg: " + c.str()); break; }
      }
      for (int p = 0; p < BabSetupBase::NumberDoubleParam; p++) {
        BabSetupBase::DoubleParameter dp = (BabSetupBase::DoubleParameter)p;
        if (dp != BabSetupBase::MaxTime && n.s->getDoubleParameter(dp) != all[i].s->getDoubleParameter(dp)) { ev_viol("copy-differs", ctx + fmt(" real parameter %d is %g in the copy, %g in the original,", p, n.s->getDoubleParameter(dp), all[i].s->getDoubleParameter(dp)) + hist + " cfg: " + c.str()); break; }
      }
      if (n.s->getAlgorithm() != all[i].s->getAlgorithm() || n.s->nodeComparisonMethod() != all[i].s->nodeComparisonMethod() || n.s->treeTraversalMethod() != all[i].s->treeTraversalMethod() ||
          (n.s->branchingMethod() == NULL) != (all[i].s->branchingMethod() == NULL) || n.s->cutGenerators().size() != all[i].s->cutGenerators().size() || std::string(n.s->prefix()) != all[i].s->prefix())
        ev_viol("copy-differs", ctx + " algorithm, node order, branching or cut generators differ," + hist + " cfg: " + c.str());
      if (n.s->heuristics().size() != all[i].s->heuristics().size()) ev_viol("copy-lost-heuristics", ctx + fmt(" %d heuristics, original has %d,", (int)n.s->heuristics().size(), (int)all[i].s->heuristics().size()) + hist + " cfg: " + c.str());
      // settings changed in one of them do not show in the other (under a prefix that no run reads)
      if (IsValid(n.s->options()) && IsValid(all[i].s->options())) {
        auto shows = [&](BonminSetup &from, BonminSetup &to, const char *prefix, int value) {
          int v = 0;
          from.options()->SetIntegerValue(std::string(prefix) + "node_limit", value);
          from.options()->GetIntegerValue("node_limit", v, prefix);
          if (v != value) return -1;
          to.options()->GetIntegerValue("node_limit", v, prefix);
          return v == value ? 1 : 0;
        };
        std::string p1 = fmt("mon%da.", q), p2 = fmt("mon%db.", q);
        int a = shows(*n.s, *all[i].s, p1.c_str(), 987654), b = shows(*all[i].s, *n.s, p2.c_str(), 456789);
        if (a >= 0 && b >= 0) ev_obs("option_lists_compared");
        if (a == 1 || b == 1) ev_viol("copy-shares-options", ctx + (a == 1 ? " an option set in the copy shows in the original," : " an option set in the original shows in the copy,") + hist + " cfg: " + c.str());
      }
      all.push_back(std::move(n));
    } else if (what == 2 && all.size() > 1) {
      hist += fmt(" destroy %d(%s)", i, all[i].how.c_str());
      all.erase(all.begin() + i);
      ev_obs("destroyed");
    } else if (solves < 4) {

      hist += fmt(" solve %d(%s)", i, all[i].how.c_str());
      t->finals.clear();
      Outcome o = solveSetup(*all[i].s, M.n);
      all[i].solves++;
      solves++;
      ev_obs(all[i].how == "original" ? "originals_solved" : "copies_solved");
      if (o.threw) { ev_obs("solve_threw"); ev_note("EXC " + ctx + " " + o.exc + " history:" + hist + " cfg: " + c.str()); return; }
      std::string cx = ctx + " history:" + hist;
      oracleSolution(M, o, *t, cx, c);
      oracleStatus(M, &R, o, *t, cx, c);
      oracleOptimal(M, R, o, *t, cx, c);
      if (isLimit(o)) ev_viol("copy-gives-up", cx + " ended as " + statusName(o.mipStatus) + " cfg: " + c.str());
    }
  }
  while (!all.empty()) all.erase(all.begin() + r.i(0, (int)all.size() - 1));
  t->flushContract();
}
static ModeReg r1("copy", copyCase);

// branching, special ordered set and perturbation data
static void dataCopyCase(uint64_t seed, long k, const std::map<std::string, std::string> &) {
  Rng r(mix(mix(seed, 73), k));
  int n = r.i(1, 8);
  {
    auto mk = [&](int num) {
      TMINLP::SosInfo *s = new TMINLP::SosInfo;
      if (!num) return s;
      s->num = num;
      s->types = new char[num]; s->priorities = new int[num]; s->starts = new int[num + 1];
      int nz = 0;
      for (int i = 0; i < num; i++) { s->types[i] = 1 + r.i(0, 1); s->priorities[i] = r.i(1, 99); s->starts[i] = nz; nz += r.i(1, 4); }
      s->starts[num] = nz; s->numNz = nz;
      s->indices = new int[nz]; s->weights = new double[nz];
      for (int i = 0; i < nz; i++) { s->indices[i] = r.i(0, n - 1); s->weights[i] = r.u(0, 9); }
      return s;
    };
    auto str = [](const TMINLP::SosInfo &s) {
      std::string o = fmt("%d/%d", s.num, s.numNz);
      for (int i = 0; i < s.num; i++) o += fmt(" %d,%d", s.types[i], s.priorities[i]);
      for (int i = 0; i <= s.num && s.num; i++) o += fmt(" s%d", s.starts[i]);
      for (int i = 0; i < s.numNz; i++) o += fmt(" %d:%.17g", s.indices[i], s.weights[i]);
      return o;
    };
    std::unique_ptr<TMINLP::SosInfo> s(mk(r.i(0, 4)));
    std::string was = str(*s);
    std::unique_ptr<TMINLP::SosInfo> c(new TMINLP::SosInfo(*s));
    ev_obs("data_copies");
    if (str(*s) != was) ev_viol("sos-copy", "copying changed the original sets");
    else if (str(*c) != was) ev_viol("sos-copy", "copy " + str(*c) + " original " + was);
    if (r.p(0.5)) std::swap(s, c);
    c.reset();
    if (str(*s) != was) ev_viol("sos-copy", "destroying one copy changed the other");
  }
  {
    std::unique_ptr<TMINLP::BranchingInfo> b(new TMINLP::BranchingInfo);
    b->size = n;
    auto I = [&] { int *p = new int[n]; for (int i = 0; i < n; i++) p[i] = r.i(-9, 9); return p; };
    auto D = [&] { double *p = new double[n]; for (int i = 0; i < n; i++) p[i] = r.u(0, 9); return p; };
    if (r.p(0.7)) b->priorities = I();
    if (r.p(0.7)) b->branchingDirections = I();
    if (r.p(0.7)) b->upPsCosts = D();
    if (r.p(0.7)) b->downPsCosts = D();
    auto same = [&](const TMINLP::BranchingInfo &x, const std::vector<int> &p, const std::vector<int> &d, const std::vector<double> &u, const std::vector<double> &w) {
      return x.size == n && vec(x.priorities, n) == p && vec(x.branchingDirections, n) == d && vec(x.upPsCosts, n) == u && vec(x.downPsCosts, n) == w;
    };
    auto p = vec(b->priorities, n), d = vec(b->branchingDirections, n);
    auto u = vec(b->upPsCosts, n), w = vec(b->downPsCosts, n);
    // the memory of the copy is not clean
    void *mem = ::operator new(sizeof(TMINLP::BranchingInfo));
    memset(mem, 0x5a, sizeof(TMINLP::BranchingInfo));
    TMINLP::BranchingInfo *c = new (mem) TMINLP::BranchingInfo(*b);
    ev_obs("data_copies");
    if (!same(*b, p, d, u, w) || !same(*c, p, d, u, w)) ev_viol("branching-info-copy", "copy and original differ");
    if (r.p(0.5)) { b.reset(); if (!same(*c, p, d, u, w)) ev_viol("branching-info-copy", "destroying the original changed the copy"); }
    c->~BranchingInfo();
    ::operator delete(mem);
    if (b && !same(*b, p, d, u, w)) ev_viol("branching-info-copy", "destroying the copy changed the original");
  }
  {
    TMINLP::PerturbInfo pi;
    for (int q = r.i(0, 4); q > 0; q--) {
      std::vector<double> v(n); for (auto &x : v) x = r.u(0, 9);
      bool null = r.p(0.3);
      pi.SetPerturbationArray(n, null ? NULL : v.data());
      ev_obs("data_copies");
      if (null ? pi.GetPerturbationArray() != NULL : vec(pi.GetPerturbationArray(), n) != v) { ev_viol("perturb-info", "the radii read back are not those set"); break; }
    }
  }
}
static ModeReg r2("datacopy", dataCopyCase);
}  // namespace mon
