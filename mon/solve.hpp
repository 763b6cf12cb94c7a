#ifndef MON_SOLVE_HPP
#define MON_SOLVE_HPP
#include "core.hpp"
#include "BonBonminSetup.hpp"
#include "BonCbc.hpp"
namespace mon {
typedef std::vector<std::pair<std::string, std::string>> Opts;
struct Config {
  std::string algo = "B-BB";
  Opts opts;
  void set(const std::string &n, const std::string &v) { opts.push_back({n, v}); }
  std::string str() const {
    std::string s = algo;
    for (auto &o : opts) s += " " + o.first + "=" + o.second;
    return s;
  }
};
struct Outcome {
  bool threw = false, threwInSetup = false;
  std::string exc;
  int mipStatus = -1;
  double bestObj = 0, bestBound = 0, contRelax = 0;
  bool hasX = false;
  std::vector<double> x;
  int nodes = 0, iters = 0;
  bool secondsLimit = false;
};
struct Hooks {
  std::function<void(Bonmin::BonminSetup &)> afterInit;
  std::function<void(Bonmin::Bab &, Bonmin::BonminSetup &)> beforeRun;
  std::function<void(Bonmin::Bab &, Bonmin::BonminSetup &)> afterRun;
};
// set options on an options list through the public text interface
void applyOpts(Bonmin::BabSetupBase &s, const Config &c);
Outcome runBonmin(MTMINLP *t, const Config &c, const Hooks *h = nullptr);
// random configuration; level 0: algorithm defaults, 1: light, 2: heavy mixing
Config randConfig(Rng &r, int level, const char *forceAlgo = nullptr);
void plainBranching(Config &c, Rng &r);
const char *statusName(int mip);
const char *finalName(int s);
// run fn; description of the exception it threw, or empty
std::string guarded(const std::function<void()> &fn);
bool sosOk(const Model &M, const double *x, double tol);
// oracles
bool isLimit(const Outcome &o);
bool beats(const Model &M, const Outcome &o);
// what: short context for messages. Returns true when a solution was checked
bool oracleSolution(const Model &M, const Outcome &o, const MTMINLP &t, const std::string &ctx, const Config &c);
void oracleOptimal(const Model &M, const Ref &R, const Outcome &o, const MTMINLP &t, const std::string &ctx, const Config &c);
void oracleStatus(const Model &M, const Ref *R, const Outcome &o, const MTMINLP &t, const std::string &ctx, const Config &c);
// generate a model whose reference is conclusive; false if none found in a few tries
bool genWithRef(uint64_t seed, long k, const GenOpts &o, Model &M, Ref &R);
inline long argl(const std::map<std::string, std::string> &a, const char *k, long d) {
  auto it = a.find(k);
  return it == a.end() ? d : atol(it->second.c_str());
}
inline std::string args(const std::map<std::string, std::string> &a, const char *k, const char *d) {
  auto it = a.find(k);
  return it == a.end() ? std::string(d) : it->second;
}
}  // namespace mon
#endif
