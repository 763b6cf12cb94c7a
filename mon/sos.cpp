// C22: special ordered sets, priorities, preferred directions and pseudo-costs: what reaches the branching objects, and the result.
#include "solve.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "CbcModel.hpp"
#include "CbcSimpleInteger.hpp"
#include "CbcSOS.hpp"
#include "OsiBranchingObject.hpp"
using namespace mon;
using namespace Bonmin;
namespace {
std::string setStr(const Model::Sos &s) {
  std::string t = fmt("type %d:", s.type);
  for (size_t k = 0; k < s.idx.size(); k++) t += fmt(" x%d(%g)", s.idx[k], s.w[k]);
  return t;
}
void checkObjects(const Model &M, OsiObject **obj, int n, bool withSos, bool afterSearch, const std::string &ctx) {
  std::vector<int> seen(M.n, 0), used(M.sos.size(), 0);
  for (int k = 0; k < n; k++) {
    int col = obj[k]->columnNumber();
    const OsiSOS *os = dynamic_cast<const OsiSOS *>(obj[k]);
    const CbcSOS *cs = dynamic_cast<const CbcSOS *>(obj[k]);
    if (os || cs) {
      ev_obs("sets_checked");
      int type = os ? os->setType() : cs->sosType(), len = os ? os->numberMembers() : cs->numberMembers();
      const int *mem = os ? os->members() : cs->members();
      const double *w = os ? os->weights() : nullptr;
      bool hit = false;
      for (size_t q = 0; q < M.sos.size(); q++) {
        const auto &s = M.sos[q];
        if (used[q] || s.type != type || (int)s.idx.size() != len || !std::equal(s.idx.begin(), s.idx.end(), mem)) continue;
        if (w) { bool same = true; for (int j = 0; j < len; j++) same = same && std::fabs(w[j] - s.w[j]) <= 1e-9 * (1 + std::fabs(s.w[j])); if (!same) continue; }
        if (obj[k]->priority() != (s.prio ? s.prio : 10)) continue;
        used[q] = 1, hit = true;
        break;
      }
      if (!hit) ev_viol("hint-wrong-set", fmt("an object is a set of type %d with %d members and priority %d that was not declared; ", type, len, obj[k]->priority()) + ctx);
      continue;
    }
    if (col < 0 || col >= M.n) continue;
    ev_obs("objects_checked");
    seen[col]++;
    if (!M.type[col]) ev_viol("hint-wrong-object", fmt("continuous column %d is a branching object; ", col) + ctx);
    if (!M.prio.empty() && obj[k]->priority() != M.prio[col]) ev_viol("hint-priority", fmt("object of column %d has priority %d instead of %d; ", col, obj[k]->priority(), M.prio[col]) + ctx);
    if (!M.dir.empty()) {
      int way = M.dir[col], got = 0;
      if (OsiObject2 *o2 = dynamic_cast<OsiObject2 *>(obj[k])) got = o2->preferredWay();
      else if (CbcObject *co = dynamic_cast<CbcObject *>(obj[k])) got = co->preferredWay();
      if (got != way) ev_viol("hint-direction", fmt("object of column %d has preferred way %d instead of %d; ", col, got, way) + ctx);
    }
    (void)afterSearch;
  }
  for (int k = 0; k < M.n; k++)
    if (M.type[k] && M.xl[k] < M.xu[k] && seen[k] != 1) ev_viol("hint-wrong-object", fmt("integer column %d has %d branching objects; ", k, seen[k]) + ctx);
  for (size_t q = 0; q < M.sos.size(); q++)
    if (withSos != (used[q] == 1)) ev_viol("hint-wrong-set", std::string(withSos ? "missing " : "unwanted ") + setStr(M.sos[q]) + " " + ctx);
}
void caseHints(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  Rng r(mix(mix(seed, 22), k));
  GenOpts g;
  g.maxInt = 3, g.maxCont = 4, g.maxCons = 4, g.domainCap = 18, g.pInfBounds = g.pFreeRow = 0, g.pNoInt = 0;
  // outer approximation decompositions ignore the sets (known finding), pumps refuse them
  Config c = randConfig(r, r.i(0, 1), args(a, "algo", r.pick(std::vector<const char *>{"B-BB", "B-BB", "B-QG", "B-Ecp", "B-Hyb"})).c_str());
  if (!a.count("algo")) {
    Config d;
    d.algo = c.algo;
    for (auto &o : c.opts) if (o.first != "oa_decomposition" && o.first != "pump_for_minlp") d.opts.push_back(o);
    c = d;
    if (c.algo == "B-Hyb" && r.p(0.9)) c.set("pump_for_minlp", "no"), c.set("oa_decomposition", "no");
  }
  plainBranching(c, r);
  Model M;
  Ref R;
  bool ok = false, sosOff = r.p(0.1), refuse = false;
  // without cont=1, sets over continuous columns only for the NLP based algorithm
  bool onlyInt = c.algo != "B-BB" && !argl(a, "cont", 0);
  int kind = r.i(0, 5);  // which hints
  for (int t = 0; t < 8 && !ok; t++) {
    M = genConvex(mix(mix(seed, (uint64_t)k + 77003), t), g);
    Rng q(mix(mix(seed, k), 900 + t));
    std::vector<int> cand;
    for (int j = 0; j < M.n; j++) {
      if (M.xl[j] < 0 && M.xu[j] > 0 && q.p(0.8)) M.xl[j] = 0, M.x0[j] = std::max(M.x0[j], 0.);
      if (M.xl[j] == 0 && M.xu[j] > 0 && M.xu[j] < 1e10 && !(onlyInt && !M.type[j])) cand.push_back(j);
    }
    if (cand.size() >= 2 && q.p(0.85)) {
      int sets = q.p(0.3) ? 2 : 1;
      for (int z = 0; z < sets; z++) {
        Model::Sos s;
        for (size_t j = cand.size(); j > 1; j--) std::swap(cand[j - 1], cand[q.i(0, (int)j - 1)]);
        int len = std::min<int>((int)cand.size(), q.i(2, 4));
        s.type = len > 2 && q.p(0.4) ? 2 : 1, s.prio = q.p(0.3) ? 0 : q.i(1, 30);
        double w = q.nice(0.5, 2);
        for (int j = 0; j < len; j++) s.idx.push_back(cand[j]), s.w.push_back(w), w += q.nice(0.25, 3);
        M.sos.push_back(s);
      }
    }
    if (kind != 0 && q.p(0.8)) {
      bool pr = kind != 2, di = kind == 2 || kind == 3 || q.p(0.5), ps = kind == 4 && c.algo != "B-BB";
      for (int j = 0; j < M.n; j++) {
        if (pr) M.prio.push_back(q.i(1, 20));
        if (di) M.dir.push_back(q.i(-1, 1));
        if (ps) M.upPs.push_back(q.nice(0.25, 5)), M.downPs.push_back(q.nice(0.25, 5));
      }
    }
    M.finish();
    Model Mr = M;
    if (sosOff) Mr.sos.clear();
    R = reference(Mr);
    ok = R.status != 2;
  }
  if (!ok) { ev_obs("gen_inconclusive"); return; }
  c.set("time_limit", "8");
  if (sosOff) c.set("sos_constraints", "disable");
  bool osi = c.algo == "B-BB";
  for (auto &o : c.opts) if (o.first == "variable_selection") osi = osi || o.second == "osi-simple" || o.second == "osi-strong";
  refuse = osi && !M.upPs.empty();
  Ipopt::SmartPtr<MTMINLP> t = new MTMINLP(M);
  std::string ctx = M.name + " cfg " + c.str();
  if (a.count("verbose")) ev_note(M.describe() + fmt(" ref %d %.9g ", R.status, R.obj) + " cfg " + c.str());
  Hooks h;
  h.afterInit = [&](BonminSetup &b) {
    if (!osi) return;
    ev_obs("osi_setups");
    if (b.continuousSolver()->numberObjects() == 0 && M.nInt()) ev_viol("hint-wrong-object", "no branching objects; " + ctx);
    else checkObjects(M, b.continuousSolver()->objects(), b.continuousSolver()->numberObjects(), !sosOff, false, ctx);
  };
  h.afterRun = [&](Bab &bb, BonminSetup &b) {
    if (osi || bb.numNodes() == 0) return;
    ev_obs("cbc_searches");
    checkObjects(M, bb.model().objects(), bb.model().numberObjects(), !sosOff, true, ctx);
  };
  Outcome o = runBonmin(GetRawPtr(t), c, &h);
  ev_obs("hint_runs");
  if (!M.sos.empty()) ev_obs(sosOff ? "sets_disabled" : "runs_with_sets");
  if (o.threw) {
    bool fp = o.exc.find("Can not use FP") != std::string::npos;
    ev_obs("refusals");
    if (refuse && o.exc.find("pseudo-costs") == std::string::npos) ev_note("EXC " + o.exc);
    else if (!refuse && !fp) ev_note("EXC " + o.exc + " " + ctx);
    t->flushContract();
    return;
  }
  if (refuse) ev_viol("hint-pseudo-costs-ignored", "pseudo-costs that cannot be used were not refused; " + ctx);
  Model Mr = M;
  if (sosOff) Mr.sos.clear();
  ev_obs("hint_results");
  oracleStatus(Mr, &R, o, *t, M.name, c);
  oracleOptimal(Mr, R, o, *t, M.name, c);
  oracleSolution(Mr, o, *t, M.name, c);
  t->flushContract();
}
ModeReg r1("hints", caseHints);
}  // namespace
