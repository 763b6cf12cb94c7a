// Tree traversal (C17): the nodes handed to the diving trees of Bonmin are followed one by one. `tree` watches the tree of a real
// branch and bound, `treeseq` drives the trees with histories that follow the protocol of branch and bound.
#include "nlp.hpp"
#include "BonDiver.hpp"
#include "BonGuessHeuristic.hpp"
#include "CbcNode.hpp"
#include "CbcFullNodeInfo.hpp"
#include "CbcHeuristic.hpp"
#include "CbcCompareDefault.hpp"
#include "CbcCompareEstimate.hpp"
#include "CbcCompareObjective.hpp"
#include "CbcCompareDepth.hpp"
#include <memory>
#include <set>
using namespace Bonmin;
using namespace Ipopt;
// access to the private node information of CbcNode
template <class Tag, typename Tag::type P> struct Rob { friend typename Tag::type get(Tag) { return P; } };
struct NodeInfoTag { typedef CbcNodeInfo *CbcNode::*type; friend type get(NodeInfoTag); };
template struct Rob<NodeInfoTag, &CbcNode::nodeInfo_>;
namespace mon {
namespace {
struct Log {
  std::multiset<CbcNode *> held;
  std::string why, key, hist;
  long pushes = 0, taken = 0, cleans = 0, pruned = 0, kept = 0, checks = 0;
  bool ended = false, spied = false;
  void bad(const char *k, const std::string &s) { if (key.empty()) { key = k; why = s; } }
  double minObj() const { double b = 1e100; for (auto *n : held) b = std::min(b, n->objectiveValue()); return b; }
};
Log *gLog = nullptr;

template <class B> struct Spy : B {
  Log *L; int inner = 0; Rng *r;
  Spy(const B &b, Log *l, Rng *rr) : B(b), L(l), r(rr) {}
  Spy(const Spy &o) : B(o), L(o.L), inner(0), r(o.r) {}
  CbcTree *clone() const override { return new Spy(*this); }
  void check(const char *op) {
    L->checks++;
    int held = (int)L->held.size();
    int sz = this->B::size();
    if (sz != held) L->bad("tree-size", fmt("after %s: size() is %d, %d nodes are held", op, sz, held));
    if (this->B::empty() != (held == 0)) L->bad("tree-empty", fmt("after %s: empty() is %d, %d nodes are held", op, (int)this->B::empty(), held));
    double want = L->minObj(), got = this->B::getBestPossibleObjective();
    if (held && !(std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)))) L->bad("tree-bound", fmt("after %s: best possible objective %.12g, the best node held has %.12g", op, got, want));
  }
  void push(CbcNode *x) override {
    if (inner) { B::push(x); return; }
    L->pushes++;
    if (L->held.count(x)) L->bad("tree-duplicate", "a node was pushed twice");
    L->held.insert(x);
    inner++; B::push(x); inner--;
    check("push");
  }
  void drop(CbcNode *x, const char *op) {
    L->taken++;
    auto it = L->held.find(x);
    if (it == L->held.end()) { L->bad("tree-duplicate", fmt("%s gave a node that is not on the tree", op)); return; }
    L->held.erase(it);
  }
  void pop() override {
    if (inner) { B::pop(); return; }
    CbcNode *t = B::top();
    inner++; B::pop(); inner--;
    drop(t, "pop");
    check("pop");
  }
  CbcNode *bestNode(double cutoff) override {
    if (inner) return B::bestNode(cutoff);
    inner++; CbcNode *n = B::bestNode(cutoff); inner--;
    if (n) drop(n, "bestNode");
    else if (!L->held.empty()) {
      bool below = false;
      for (auto *h : L->held) below |= h->objectiveValue() < cutoff;
      L->bad("tree-stuck", fmt("bestNode(%g) gave none of the %d nodes held, %s is below the cutoff", cutoff, (int)L->held.size(), below ? "one" : "none"));
    }
    check("bestNode");
    return n;
  }
  void cleanTree(CbcModel *m, double cutoff, double &best) override {
    std::map<CbcNode *, double> before;
    for (auto *n : L->held) before[n] = n->objectiveValue();
    inner++; B::cleanTree(m, cutoff, best); inner--;
    L->cleans++;
    std::multiset<CbcNode *> now(this->nodes_.begin(), this->nodes_.end());
    now.erase(nullptr);
    if ((int)now.size() != this->B::size()) L->bad("tree-size", fmt("after cleanTree: size() is %d, the heap has %d nodes", this->B::size(), (int)now.size()));
    for (auto *n : now) {
      if (!before.count(n)) L->bad("tree-duplicate", "cleanTree added a node");
      if (now.count(n) > 1) L->bad("tree-duplicate", "cleanTree duplicated a node");
      if (n->objectiveValue() >= cutoff) L->bad("clean-keeps", fmt("cleanTree(%.10g) kept a node with objective %.10g", cutoff, n->objectiveValue()));
    }
    for (auto &p : before)
      if (!now.count(p.first)) {
        L->pruned++;
        if (p.second < cutoff - 1e-9) L->bad("clean-loses", fmt("cleanTree(%.10g) removed a node with objective %.10g", cutoff, p.second));
      } else L->kept++;
    L->held = now;
    check("cleanTree");
  }
  void endSearch() override { L->ended = true; B::endSearch(); }
};

// puts a watched copy of the tree into the model when the root heuristics run
struct Installer : CbcHeuristic {
  Rng *r; Log *L; std::shared_ptr<bool> done;
  Installer(Rng *rr, Log *l) : r(rr), L(l), done(new bool(false)) { setWhen(1); }
  Installer(const Installer &o) : CbcHeuristic(o), r(o.r), L(o.L), done(o.done) {}
  CbcHeuristic *clone() const override { return new Installer(*this); }
  void resetModel(CbcModel *) override {}
  using CbcHeuristic::solution;
  bool shouldHeurRun(int) override { return true; }
  int solution(double &, double *) override {
    if (*done || !model_ || !model_->tree() || !model_->tree()->empty()) return 0;
    CbcTree *t = model_->tree();
    CbcTree *n = nullptr;
    if (auto *d = dynamic_cast<CbcDiver *>(t)) n = new Spy<CbcDiver>(*d, L, r);
    else if (auto *d = dynamic_cast<CbcProbedDiver *>(t)) n = new Spy<CbcProbedDiver>(*d, L, r);
    else if (auto *d = dynamic_cast<CbcDfsDiver *>(t)) n = new Spy<CbcDfsDiver>(*d, L, r);
    if (!n) return 0;
    *done = true;
    model_->passInTreeHandler(*n);
    delete n;
    if (auto *c = dynamic_cast<DiverCompare *>(model_->nodeComparison())) {
      c->setDiver(dynamic_cast<CbcDfsDiver *>(model_->tree()));
      c->setNumberSolToStopDive(1 + r->i(0, 3));
      if (r->p(0.5)) c->setNumberNodesToLimitTreeSize(r->i(0, 30));
    }
    model_->tree()->setComparison(*model_->nodeComparison());
    L->spied = true;
    return 0;
  }
};
}  // namespace

static void treeCase(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  Rng r(mix(mix(seed, 81), k));
  double opt; bool feas; std::vector<double> best;
  Model M = genLattice(mix(mix(seed, 82), k), 8, opt, feas, best);
  Config c;
  c.algo = r.p(0.6) ? "B-BB" : r.pick(std::vector<std::string>{"B-QG", "B-Hyb", "B-Ecp", "B-OA"});
  if (c.algo != "B-BB") plainBranching(c, r);
  else if (r.p(0.5)) c.set("variable_selection", r.pick(std::vector<std::string>{"most-fractional", "osi-simple", "random", "strong-branching"}));
  c.set("node_comparison", r.pick(std::vector<std::string>{"best-bound", "depth-first", "breadth-first", "dynamic", "best-guess"}));
  std::string strat = r.pick(std::vector<std::string>{"dive", "probed-dive", "dfs-dive", "dfs-dive-dynamic"});
  c.set("tree_search_strategy", strat);
  if (r.p(0.5)) c.set("stop_diving_on_cutoff", "yes");
  if (r.p(0.6)) c.set("max_backtracks_in_dive", std::to_string(r.i(0, 3)));
  if (r.p(0.6)) c.set("max_dive_depth", std::to_string(r.i(0, 6)));
  c.set("node_limit", "500"); c.set("time_limit", "8");
  if (c.algo == "B-BB") { c.set("number_before_trust", "0"); }
  Log L;
  Hooks h;
  h.afterInit = [&](BonminSetup &s) {
    BabSetupBase::HeuristicMethod m;
    m.heuristic = new Installer(&r, &L); m.id = "monitor";
    s.heuristics().push_back(m);
  };
  SmartPtr<MTMINLP> t = new MTMINLP(M);
  Outcome o = runBonmin(GetRawPtr(t), c, &h);
  std::string ctx = M.name;
  if (o.threw) { ev_obs("solve_threw"); ev_note("EXC " + ctx + " " + o.exc + " cfg: " + c.str()); return; }
  if (!L.spied) ev_obs("not_spied");
  ev_obs("tree_solves"); ev_obs("strategy:" + strat); ev_obs("nodes", o.nodes);
  ev_obs("tree_pushes", L.pushes); ev_obs("tree_taken", L.taken); ev_obs("tree_cleanings", L.cleans); ev_obs("nodes_pruned", L.pruned); ev_obs("nodes_kept", L.kept); ev_obs("tree_checks", L.checks);
  if (!L.key.empty()) ev_viol(L.key.c_str(), ctx + " " + L.why + " cfg: " + c.str());
  bool lim = isLimit(o);
  if (!lim && L.spied && !L.held.empty()) ev_viol("tree-left", ctx + fmt(" the search ended as %s with %d nodes on the tree", statusName(o.mipStatus), (int)L.held.size()) + " cfg: " + c.str());
  if (!lim) {
    ev_obs("strategies_compared");
    double tol = 3e-4 * (1 + std::fabs(opt)) + 1e-3;
    if (o.hasX != feas || (feas && std::fabs(o.bestObj - opt) > tol))
      ev_viol("strategy-differs", ctx + fmt(" %s ends as %s %.9g, the optimum is %.9g", strat.c_str(), statusName(o.mipStatus), o.bestObj, opt) + (feas ? "" : " (infeasible)") + " cfg: " + c.str());
  }
  t->flushContract();
}
static ModeReg r1("tree", treeCase);

namespace {
struct BObj : OsiBranchingObject {
  BObj(int n) { numberBranches_ = n; branchIndex_ = 0; }
  OsiBranchingObject *clone() const override { return new BObj(*this); }
  double branch(OsiSolverInterface *) override { branchIndex_++; return 0; }
  using OsiBranchingObject::branch;
  void take() { branchIndex_++; }
};
template <class B> void seqRun(B &b0, Rng &r, const std::string &ctx, const std::string &name, CbcCompareBase &cmp, DiverCompare *dc) {
  Log L;
  Spy<B> t(b0, &L, &r);
  std::vector<std::unique_ptr<CbcNode>> nodes;
  if (dc) dc->setDiver(dynamic_cast<CbcDfsDiver *>(static_cast<CbcTree *>(&t)));
  t.setComparison(cmp);
  double cutoff = r.p(0.3) ? 1e50 : r.u(2, 12);
  auto mk = [&](double parent, int depth) {
    nodes.emplace_back(new CbcNode);
    CbcNode *n = nodes.back().get();
    n->setObjectiveValue(parent + (r.p(0.2) ? 0 : r.u(0, 1.5)));
    n->setGuessedObjectiveValue(n->objectiveValue() + r.u(0, 3));
    n->setDepth(depth);
    n->setNumberUnsatisfied(r.i(1, 5));
    n->setBranchingObject(new BObj(2));
    CbcFullNodeInfo *fi = new CbcFullNodeInfo;
    fi->initializeInfo(2);
    n->*get(NodeInfoTag()) = fi;
    return n;
  };
  auto left = [&](CbcNode *n) { return n->branchingObject()->numberBranchesLeft(); };
  std::string h;
  t.push(mk(0, 0));
  int steps = r.i(5, 120);
  long loops = 0;
  while (L.key.empty() && ++loops < 100000) {
    bool feed = loops < steps;
    if (t.empty()) break;
    int op = r.i(0, 19);
    if (op == 0) { CbcNode *top = t.top(); if (!L.held.count(top)) L.bad("tree-duplicate", "top() is not on the tree"); }
    else if (op == 1 && r.p(0.5)) { t.setComparison(cmp); h += "s"; t.check("setComparison"); }
    else if (op == 2 && r.p(0.5)) {
      if (auto *d = dynamic_cast<CbcDfsDiver *>(static_cast<CbcTree *>(&t))) { d->setComparisonMode((CbcDfsDiver::ComparisonModes)r.i(0, 3)); h += "m"; t.check("setComparisonMode"); }
    } else if (op == 3 && cutoff > 1e49) cutoff = r.u(2, 12);
    else if (op == 4 && r.p(0.3)) { t.pop(); h += "p"; continue; }
    else if (op == 5) cutoff = std::min(cutoff, r.u(1, 12));  // a new incumbent before the tree is cleaned
    CbcNode *n = t.bestNode(cutoff);
    h += "b";
    if (!n) continue;
    if (n->objectiveValue() >= cutoff) { h += "x"; continue; }  // discarded by branch and bound
    if (!feed) continue;
    static_cast<BObj *>(n->modifiableBranchingObject())->take();
    n->nodeInfo()->branchedOn();
    CbcNode *child = r.p(0.65) ? mk(n->objectiveValue(), n->depth() + 1) : nullptr;
    if (child && child->objectiveValue() >= cutoff) child = nullptr;
    bool parent = left(n) > 0;
    if (parent && r.p(0.5)) { t.push(n); h += "P"; parent = false; }
    if (child) { t.push(child); h += "C"; }
    if (parent) { t.push(n); h += "P"; }
  }
  ev_obs("tree_histories"); ev_obs("seq:" + name); ev_obs("tree_pushes", L.pushes); ev_obs("tree_taken", L.taken); ev_obs("tree_checks", L.checks);
  if (L.key.empty() && !L.held.empty()) L.bad("tree-left", fmt("%d nodes are never given back", (int)L.held.size()));
  if (!L.key.empty()) ev_viol(L.key.c_str(), ctx + " " + name + ": " + L.why + " history " + h.substr(0, 300));
}
}  // namespace
static void treeSeqCase(uint64_t seed, long k, const std::map<std::string, std::string> &) {
  Rng r(mix(mix(seed, 83), k));
  BonminSetup s;
  s.initializeOptionsAndJournalist();
  Config c;
  if (r.p(0.5)) c.set("stop_diving_on_cutoff", "yes");
  if (r.p(0.7)) c.set("max_backtracks_in_dive", std::to_string(r.i(0, 4)));
  if (r.p(0.7)) c.set("max_dive_depth", std::to_string(r.i(0, 8)));
  applyOpts(s, c);
  std::unique_ptr<CbcCompareBase> base;
  switch (r.i(0, 4)) {
  case 0: base.reset(new CbcCompareObjective); break;
  case 1: base.reset(new CbcCompareDepth); break;
  case 2: { CbcCompareDefault *d = new CbcCompareDefault; d->setWeight(0); base.reset(d); break; }
  case 3: base.reset(new CbcCompareDefault); break;
  case 4: base.reset(new CbcCompareEstimate); break;
  }
  std::string ctx = fmt("seq-%d", (int)k) + " " + c.str();
  switch (r.i(0, 3)) {
  case 0: { CbcDiver b; b.initialize(s); seqRun(b, r, ctx, "dive", *base, nullptr); break; }
  case 1: { CbcProbedDiver b; b.initialize(s); seqRun(b, r, ctx, "probed-dive", *base, nullptr); break; }
  case 2: { CbcDfsDiver b; b.initialize(s); seqRun(b, r, ctx, "dfs-dive", *base, nullptr); break; }
  case 3: {
    CbcDfsDiver b; b.initialize(s);
    DiverCompare dc; dc.setComparisonDive(*base); dc.setComparisonBound(CbcCompareObjective());
    seqRun(b, r, ctx, "dfs-dive-dynamic", dc, &dc); break; }
  }
}
static ModeReg r2("treeseq", treeSeqCase);
}  // namespace mon
