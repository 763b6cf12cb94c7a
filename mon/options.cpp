// C10: option text, files and programmatic settings against a model of the option store (optstore), and the values the
// components of a setup and of a run end up with (optuse).
#include "solve.hpp"
#include "BonRegisteredOptions.hpp"
#include "BonOaDecBase.hpp"
#include "BonOACutGenerator2.hpp"
#include "BonFpForMinlp.hpp"
#include "BonChooseVariable.hpp"
#include "OsiChooseVariable.hpp"
#include <memory>
#include <unistd.h>
using namespace mon;
using namespace Bonmin;
namespace {
struct Doc { const char *name; int type; const char *def; double lo, hi; const char *vals; };
const Doc kDoc[] = {
#include "opttable.inc"
};
const int kNDoc = sizeof(kDoc) / sizeof(kDoc[0]);
std::vector<std::string> split(const std::string &s) {
  std::vector<std::string> v;
  std::stringstream ss(s);
  std::string t;
  while (std::getline(ss, t, ',')) v.push_back(t);
  return v;
}
std::string lower(std::string s) {
  for (auto &c : s) c = (char)tolower(c);
  return s;
}
struct Opt { std::string name; int type; std::string def; bool hasLo, hasHi, sLo, sHi; double lo, hi; std::vector<std::string> vals; };
std::vector<Opt> registry(BonminSetup &b) {
  std::vector<Opt> R;
  for (auto &p : b.roptions()->RegisteredOptionsList()) {
    auto o = p.second;
    Opt q;
    q.name = p.first;
    q.hasLo = q.hasHi = q.sLo = q.sHi = false, q.lo = q.hi = 0;
    if (o->Type() == Ipopt::OT_Integer) {
      q.type = 0, q.def = fmt("%d", o->DefaultInteger());
      if ((q.hasLo = o->HasLower())) q.lo = o->LowerInteger();
      if ((q.hasHi = o->HasUpper())) q.hi = o->UpperInteger();
    } else if (o->Type() == Ipopt::OT_Number) {
      q.type = 1, q.def = fmt("%.17g", o->DefaultNumber());
      if ((q.hasLo = o->HasLower())) q.lo = o->LowerNumber(), q.sLo = o->LowerStrict();
      if ((q.hasHi = o->HasUpper())) q.hi = o->UpperNumber(), q.sHi = o->UpperStrict();
    } else {
      q.type = 2, q.def = o->DefaultString();
      for (auto &v : o->GetValidStrings()) q.vals.push_back(v.value_);
    }
    R.push_back(q);
  }
  return R;
}
bool freeString(const Opt &o) { return std::find(o.vals.begin(), o.vals.end(), "*") != o.vals.end(); }
std::string goodValue(Rng &r, const Opt &o) {
  if (o.type == 2) return freeString(o) ? r.pick(std::vector<std::string>{"abc", "ma27", "x_y", "f.txt"}) : r.pick(o.vals);
  double lo = o.hasLo ? o.lo : -50, hi = o.hasHi ? o.hi : std::max(lo + 40, 50.);
  lo = std::max(lo, -1e6), hi = std::min(hi, std::max(lo + 10, 1e6));
  if (o.type == 0) return fmt("%d", r.p(0.2) ? (int)lo : r.p(0.2) ? (int)hi : r.i((int)lo, (int)hi));
  double v = r.p(0.15) && !o.sLo ? lo : r.p(0.15) && !o.sHi ? hi : lo + (hi - lo) * r.u(0.05, 0.95);
  return r.p(0.5) ? fmt("%.17g", v) : fmt("%.16e", v);
}
// empty when no bad value exists
std::string badValue(Rng &r, const Opt &o) {
  if (o.type == 2) return freeString(o) ? "" : "no_such_value";
  if (r.p(0.4)) return r.pick(std::vector<std::string>{"abc", "1x2", "yes", "--3"});
  if (o.type == 0 && r.p(0.3)) return "2.5";
  if (o.hasLo && r.p(0.5)) return o.type == 0 ? fmt("%.0f", o.lo - 1) : fmt("%.17g", o.sLo && r.p(0.5) ? o.lo : o.lo - 1 - std::fabs(o.lo) * 0.1);
  if (o.hasHi) return o.type == 0 ? (o.hi < 2147483646. ? fmt("%.0f", o.hi + 1) : "") : fmt("%.17g", o.hi + 1 + std::fabs(o.hi) * 0.1);
  return "";
}
double sixDigits(double v) { return atof(fmt("%g", v).c_str()); }  // the option store of Ipopt keeps numbers as "%g"
struct Val { std::string v; bool lock = false; };
typedef std::map<std::string, Val> Store;
void checkStore(Rng &r, BonminSetup &b, const std::vector<Opt> &R, const Store &S, const std::vector<int> &which, const std::string &hist) {
  static const std::vector<std::string> prefixes = {"bonmin.", "", "oa_decomposition.", "pump_for_minlp.", "local_solver.", "rins.", "unknown."};
  for (int k : which) {
    const Opt &o = R[k];
    const std::string pre = r.pick(prefixes);
    auto it = S.find(lower(pre + o.name));
    if (it == S.end()) it = S.find(lower(o.name));
    bool expFound = it != S.end();
    std::string exp = expFound ? it->second.v : o.def, got;
    bool found = false, same = false;
    std::string ex = guarded([&] {
      if (o.type == 0) {
        int v = -12345;
        found = b.options()->GetIntegerValue(o.name, v, pre), got = fmt("%d", v), same = v == atoi(exp.c_str());
      } else if (o.type == 1) {
        double v = -12345;
        found = b.options()->GetNumericValue(o.name, v, pre), got = fmt("%.17g", v), same = v == (expFound ? sixDigits(atof(exp.c_str())) : atof(exp.c_str()));
      } else {
        std::string v;
        found = b.options()->GetStringValue(o.name, v, pre), got = v, same = lower(v) == lower(exp);
        if (!freeString(o)) {
          int e = -1;
          b.options()->GetEnumValue(o.name, e, pre);
          if (e < 0 || e >= (int)o.vals.size() || lower(o.vals[e]) != lower(exp)) same = false, got += fmt(" (enumeration value %d)", e);
        }
      }
    });
    ev_obs("values_read");
    if (!ex.empty()) { ev_viol("option-read-threw", o.name + " prefix '" + pre + "': " + ex); continue; }
    if (!same || found != expFound)
      ev_viol("option-value", fmt("%s read with prefix '%s' is %s (%s), expected %s (%s) after:", o.name.c_str(), pre.c_str(), got.c_str(), found ? "set" : "default", exp.c_str(),
                                  expFound ? "set" : "default") + hist.substr(0, 900));
  }
}
void caseStore(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  Rng r(mix(seed, k) ^ 0x0b7);
  BonminSetup b;
  if (r.p(0.8)) b.initializeOptionsAndJournalist();
  else b.readOptionsString("");
  std::vector<Opt> R = registry(b);
  std::map<std::string, int> ix;
  for (size_t i = 0; i < R.size(); i++) ix[R[i].name] = (int)i;
  if (k % 10 == 0) {  // defaults and ranges of the documented options
    for (int i = 0; i < kNDoc; i++) {
      const Doc &d = kDoc[i];
      auto it = ix.find(d.name);
      if (it == ix.end()) { ev_viol("option-missing", std::string("documented option is not registered: ") + d.name); continue; }
      const Opt &o = R[it->second];
      ev_obs("defaults_checked");
      bool ok = o.type == d.type;
      if (ok && o.type == 2) {
        auto v = split(d.vals);
        ok = o.def == d.def && std::set<std::string>(v.begin(), v.end()) == std::set<std::string>(o.vals.begin(), o.vals.end());
      } else if (ok) {
        double dv = atof(d.def), v = atof(o.def.c_str());
        ok = std::fabs(v - dv) <= 1e-5 * std::fabs(dv);
        auto rng = [&](bool has, double x, double dx, double none) { return has ? std::fabs(x - dx) <= 1e-5 * (std::fabs(dx) + 1e-30) || x == dx : dx == none; };
        double nlo = o.type == 0 ? -999999 : -1e30, nhi = o.type == 0 ? 999999 : 1e30;
        ok = ok && rng(o.hasLo, o.lo, d.lo, nlo) && rng(o.hasHi, o.hi, d.hi, nhi);
      }
      if (!ok) ev_viol("option-default", fmt("%s: default %s range [%g,%g], documented %s [%g,%g]", d.name, o.def.c_str(), o.lo, o.hi, d.def, d.lo, d.hi));
    }
  }
  static const std::vector<std::string> prefixes = {"bonmin.", "bonmin.", "", "oa_decomposition.", "pump_for_minlp.", "local_solver.", "rins."};
  Store S;
  std::string hist;
  std::vector<int> touched;
  auto pickOpt = [&]() -> int {
    if (!touched.empty() && r.p(0.4)) return r.pick(touched);
    for (;;) {
      int i = r.p(0.6) ? ix[kDoc[r.i(0, kNDoc - 1)].name] : r.i(0, (int)R.size() - 1);
      // these act while being read
      if (R[i].name == "print_options_documentation" || R[i].name == "option_file_name" || R[i].name == "output_file") continue;
      return i;
    }
  };
  int ops = r.i(2, 8);
  for (int q = 0; q < ops; q++) {
    int kind = r.i(0, 9);
    if (kind < 6) {  // text or file, possibly with an error in it
      int lines = r.i(1, 6), bad = kind == 5 ? r.i(0, lines - 1) : -1;
      std::string text;
      bool expectThrow = false;
      for (int l = 0; l < lines; l++) {
        int i = pickOpt();
        std::string pre = r.pick(prefixes), name = R[i].name, v = goodValue(r, R[i]);
        if (l == bad) {
          if (r.p(0.4)) {
            name = r.pick(std::vector<std::string>{"no_such_option", name + "x", "max_", "algorithm.B-BB"}), expectThrow = true;
          } else {
            std::string w = badValue(r, R[i]);
            if (!w.empty()) v = w, expectThrow = true;
          }
        }
        if (r.p(0.1)) text += "# a comment " + name + " 3\n";
        if (r.p(0.1)) text += "\n";
        text += (r.p(0.1) ? "  " : "") + pre + name + r.pick(std::vector<std::string>{" ", "\t", "    "}) + v + (r.p(0.1) ? "  # why" : "") + (l + 1 < lines || r.p(0.7) ? "\n" : "");
        if (expectThrow) { if (l == bad) { /* later lines are not reached */ } }
        if (!expectThrow) {
          std::string full = lower(pre + name);
          if (!S.count(full) || !S[full].lock) S[full].v = v, S[full].lock = true;  // text settings are final
          touched.push_back(i);
        } else
          touched.push_back(i);
      }
      hist += " {" + text + "}";
      bool file = r.p(0.3);
      std::string ex;
      if (file) {
        std::string fn = fmt("opt%d.txt", q);
        FILE *f = fopen(fn.c_str(), "w");
        fputs(text.c_str(), f);
        fclose(f);
        ex = guarded([&] { b.readOptionsFile(fn); });
        unlink(fn.c_str());
        ev_obs("files_read");
      } else
        ex = guarded([&] { b.readOptionsString(text); });
      ev_obs("texts_read");
      if (expectThrow) {
        ev_obs("bad_texts");
        if (ex.empty()) ev_viol("option-error-silent", "accepted: " + text);
      } else if (!ex.empty())
        ev_viol("option-rejected", ex + ": " + text);
    } else if (kind < 9) {  // programmatic
      int i = pickOpt();
      const Opt &o = R[i];
      std::string pre = r.pick(prefixes), full = lower(pre + o.name), v = goodValue(r, o);
      bool bad = r.p(0.2), lock = r.p(0.2);
      if (bad) {
        std::string w = o.type == 2 ? badValue(r, o) : o.hasLo ? (o.type == 0 ? fmt("%.0f", o.lo - 1) : fmt("%.17g", o.lo - 1 - std::fabs(o.lo))) : "";
        if (w.empty() || (o.type == 0 && o.lo < -2147483647.)) bad = false; else v = w;
      }
      bool ret = false;
      std::string ex = guarded([&] {
        if (o.type == 0) ret = b.options()->SetIntegerValue(pre + o.name, atoi(v.c_str()), !lock, r.p(0.3));
        else if (o.type == 1) ret = b.options()->SetNumericValue(pre + o.name, atof(v.c_str()), !lock, r.p(0.3));
        else ret = b.options()->SetStringValue(pre + o.name, v, !lock, r.p(0.3));
      });
      hist += fmt(" set(%s,%s,%s)", full.c_str(), v.c_str(), lock ? "locked" : "");
      touched.push_back(i);
      ev_obs("programmatic_sets");
      if (bad) {
        ev_obs("bad_sets");
        if (ret && ex.empty()) ev_viol("option-error-silent", "accepted:" + hist);
      } else if (S.count(full) && S[full].lock)
        ev_obs("locked_kept");
      else if (!ex.empty() || !ret)
        ev_viol("option-rejected", ex + hist);
      else
        S[full].v = v, S[full].lock = lock;
    } else {
      std::string ex = guarded([&] { b.readOptionsFile("does_not_exist.opt"); });
      (void)ex;
      ev_obs("missing_files");
    }
    std::vector<int> w = touched;
    for (int z = 0; z < 6; z++) w.push_back(r.i(0, (int)R.size() - 1));
    checkStore(r, b, R, S, w, hist);
  }
}

// ------------------------------------------------------------------ what the components use
template <class T> void same(const char *what, T got, T exp, const std::string &ctx) {
  ev_obs("component_values");
  if (!(got == exp)) ev_viol(std::string("option-not-used:") + what, fmt("%s is %.12g instead of %.12g with ", what, (double)got, (double)exp) + ctx);
}
void caseUse(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  Rng r(mix(seed, k) ^ 0x0b8);
  GenOpts g;
  g.pInfBounds = g.pFreeRow = 0, g.pNoInt = 0, g.pInfeasible = 0, g.maxInt = 3, g.maxCont = 2, g.maxCons = 3;
  Model M = genConvex(mix(seed, k), g);
  bool general = false;
  for (int t : M.type) general = general || t == 2;
  Ipopt::SmartPtr<MTMINLP> t = new MTMINLP(M, false);
  Config c;
  static const std::vector<std::string> algos = {"B-BB", "B-OA", "B-QG", "B-Hyb", "B-Ecp", "B-iFP"};
  c.algo = r.pick(algos);
  bool bb = c.algo == "B-BB";
  std::string text = "bonmin.algorithm " + c.algo + "\n";
  std::map<std::string, std::string> val;  // effective value in the "bonmin." scope
  auto give = [&](const std::string &name, const std::function<std::string()> &v, double p) {
    if (!r.p(p)) return;
    int how = r.i(0, 3);  // plain, prefixed, both (the prefixed one wins), programmatic order irrelevant
    std::string v1 = v(), v2 = v();
    if (how == 0) text += name + " " + v1 + "\n", val[name] = v1;
    else if (how == 1) text += "bonmin." + name + " " + v1 + "\n", val[name] = v1;
    else if (how == 2) text += "bonmin." + name + " " + v1 + "\n" + name + " " + v2 + "\n", val[name] = v1;
    else text += name + " " + v2 + "\nbonmin." + name + " " + v1 + "\nbonmin." + name + " " + v2 + "\n", val[name] = v1;  // the first one stands
  };
  auto I = [&](int lo, int hi) { return [&r, lo, hi] { return fmt("%d", r.i(lo, hi)); }; };
  auto D = [&](double lo, double hi) { return [&r, lo, hi] { return fmt("%.9g", r.u(lo, hi)); }; };
  auto E = [&](std::vector<std::string> v) { return [&r, v] { return r.pick(v); }; };
  std::vector<std::string> yn = {"yes", "no"};
  give("bb_log_level", I(0, 1), 0.5), give("bb_log_interval", I(1, 500), 0.5);
  give("max_consecutive_failures", I(0, 30), 0.5), give("max_consecutive_infeasible", I(0, 30), 0.5);
  give("nlp_failure_behavior", E({"stop", "fathom"}), 0.5);
  give("number_strong_branch", I(1, 40), 0.5), give("number_before_trust", I(0, 20), 0.5);
  give("node_limit", I(50, 5000), 0.5), give("solution_limit", I(50, 5000), 0.5), give("iteration_limit", I(50000, 500000), 0.5);
  give("sos_constraints", E({"enable", "disable"}), 0.3);
  give("num_cut_passes", I(0, 30), 0.5), give("num_cut_passes_at_root", I(0, 30), 0.5), give("nlp_log_at_root", I(0, 1), 0.3);
  give("cutoff_decr", D(1e-6, 1e-4), 0.5), give("cutoff", D(1e5, 1e6), 0.5), give("allowable_gap", D(0, 1e-4), 0.5), give("allowable_fraction_gap", D(0, 1e-4), 0.5);
  give("integer_tolerance", D(1e-7, 1e-5), 0.5), give("time_limit", D(100, 1000), 0.5);
  std::vector<std::string> nc = {"best-bound", "depth-first", "breadth-first", "dynamic", "best-guess"};
  std::vector<std::string> ts = {"top-node", "dive", "probed-dive", "dfs-dive", "dfs-dive-dynamic"};
  give("node_comparison", E(nc), 0.5), give("tree_search_strategy", E(ts), 0.5);
  std::vector<std::string> vs = bb ? std::vector<std::string>{"most-fractional", "strong-branching", "reliability-branching", "qp-strong-branching", "lp-strong-branching",
                                                             "nlp-strong-branching", "osi-simple", "osi-strong", "random"}
                                   : std::vector<std::string>{"most-fractional", "strong-branching", "reliability-branching", "osi-simple", "osi-strong"};
  give("variable_selection", E(vs), 0.6);
  struct H { const char *opt, *id; };
  std::vector<H> heur = {{"heuristic_RINS", "RINS"}, {"heuristic_dive_fractional", "DiveFractional"}, {"heuristic_dive_vectorLength", "DiveVectorLength"},
                         {"heuristic_dive_MIP_fractional", "DiveMIPFractional"}, {"heuristic_dive_MIP_vectorLength", "DiveMIPVectorLength"},
                         {"heuristic_feasibility_pump", "FPump"}, {"heuristic_local_branching", "LocalBranching"}};
  if (bb) for (H h : {H{"fix_and_solve_heuristic", "Fix and Solve"}, H{"dummy_pump_heuristic", "Dummy pump"}, H{"MILP_rounding_heuristic", "MILP Rounding"}, H{"pump_for_minlp", "Pump for MINLP"}}) heur.push_back(h);
  for (auto &h : heur) give(h.opt, E(yn), 0.4);
  struct C { const char *opt, *id; int def; };
  std::vector<C> cuts = {{"Gomory_cuts", "Mixed Integer Gomory", -5}, {"mir_cuts", "Mixed Integer Rounding", -5}, {"2mir_cuts", "2-MIR", 0}, {"cover_cuts", "Cover", 0},
                         {"clique_cuts", "Clique", -5}, {"flow_cover_cuts", "Flow Covers", -5}, {"lift_and_project_cuts", "Lift-and-Project", 0}, {"reduce_and_split_cuts", "Reduce-and-Split", 0}};
  for (auto &q : cuts) give(q.opt, [&r] { return r.p(0.3) ? std::string("0") : fmt("%d", r.i(-99, 20)); }, 0.4);
  if (c.algo == "B-Hyb") give("nlp_solve_frequency", I(0, 20), 0.5);
  if (c.algo != "B-Ecp") give("filmint_ecp_cuts", I(0, 20), 0.4);
  give("oa_log_frequency", D(10, 1000), 0.4), give("add_only_violated_oa", E(yn), 0.4), give("oa_cuts_scope", E({"global", "local"}), 0.4), give("milp_log_level", I(0, 1), 0.3);
  // limits of the decompositions have a scope of their own
  double oaTime = -1, fpTime = -1;
  int oaSols = -1, fpSols = -1;
  if (r.p(0.4)) text += fmt("oa_decomposition.time_limit %g\n", oaTime = r.i(5, 90));
  if (r.p(0.4)) text += fmt("pump_for_minlp.time_limit %g\n", fpTime = r.i(5, 90));
  if (r.p(0.4)) text += fmt("oa_decomposition.solution_limit %d\n", oaSols = r.i(1, 40));
  if (r.p(0.4)) text += fmt("pump_for_minlp.solution_limit %d\n", fpSols = r.i(1, 40));
  std::string ctx = text;
  for (auto &ch : ctx) if (ch == '\n') ch = ';';
  if (a.count("verbose")) puts(ctx.c_str());
  auto num = [&](const char *n, double d) { return val.count(n) ? sixDigits(atof(val[n].c_str())) : d; };
  auto idx = [&](const char *n, const std::vector<std::string> &v, int d) { return val.count(n) ? (int)(std::find(v.begin(), v.end(), val[n]) - v.begin()) : d; };
  auto on = [&](const char *n, bool d) { return val.count(n) ? val[n] == "yes" : d; };
  BonminSetup b;
  std::string ex = guarded([&] {
    b.initializeOptionsAndJournalist();
    b.readOptionsString(text);
    b.readOptionsString("bonmin.nlp_log_level 0\nprint_level 0\nsb yes\nbonmin.print_user_options no\n");
    Ipopt::SmartPtr<TMINLP> keep = GetRawPtr(t);
    b.initialize(keep, true);
  });
  ev_obs("setups");
  if (!ex.empty()) { ev_viol("option-setup-threw", ex + " with " + ctx); return; }
  typedef BabSetupBase S;
  double INTMAX = 2147483647.;
  bool muted = c.algo == "B-iFP" || c.algo == "B-OA";
  if (!muted) same("bb_log_level", (double)b.getIntParameter(S::BabLogLevel), num("bb_log_level", 1), ctx);
  same("bb_log_interval", (double)b.getIntParameter(S::BabLogInterval), num("bb_log_interval", 100), ctx);
  same("max_consecutive_failures", (double)b.getIntParameter(S::MaxFailures), num("max_consecutive_failures", 10), ctx);
  same("max_consecutive_infeasible", (double)b.getIntParameter(S::MaxInfeasible), num("max_consecutive_infeasible", 0), ctx);
  same("nlp_failure_behavior", b.getIntParameter(S::FailureBehavior), idx("nlp_failure_behavior", {"stop", "fathom"}, 0), ctx);
  same("node_limit", (double)b.getIntParameter(S::MaxNodes), num("node_limit", INTMAX), ctx);
  same("solution_limit", (double)b.getIntParameter(S::MaxSolutions), num("solution_limit", INTMAX), ctx);
  same("iteration_limit", (double)b.getIntParameter(S::MaxIterations), num("iteration_limit", INTMAX), ctx);
  same("sos_constraints", b.getIntParameter(S::DisableSos), idx("sos_constraints", {"enable", "disable"}, 0), ctx);
  same("num_cut_passes", (double)b.getIntParameter(S::NumCutPasses), num("num_cut_passes", 1), ctx);
  same("num_cut_passes_at_root", (double)b.getIntParameter(S::NumCutPassesAtRoot), num("num_cut_passes_at_root", 20), ctx);
  same("nlp_log_at_root", (double)b.getIntParameter(S::RootLogLevel), num("nlp_log_at_root", 0), ctx);
  same("cutoff_decr", b.getDoubleParameter(S::CutoffDecr), num("cutoff_decr", 1e-5), ctx);
  same("cutoff", b.getDoubleParameter(S::Cutoff), num("cutoff", 1e100), ctx);
  same("allowable_gap", b.getDoubleParameter(S::AllowableGap), num("allowable_gap", 0), ctx);
  same("allowable_fraction_gap", b.getDoubleParameter(S::AllowableFractionGap), num("allowable_fraction_gap", 0), ctx);
  same("integer_tolerance", b.getDoubleParameter(S::IntTol), num("integer_tolerance", 1e-6), ctx);
  double T = num("time_limit", 1e10);
  if (!(b.getDoubleParameter(S::MaxTime) <= T + 1e-6 && b.getDoubleParameter(S::MaxTime) >= T - 60))
    ev_viol("option-not-used:time_limit", fmt("time limit %g with ", b.getDoubleParameter(S::MaxTime)) + ctx);
  same("node_comparison", (int)b.nodeComparisonMethod(), idx("node_comparison", nc, 0), ctx);
  same("tree_search_strategy", (int)b.treeTraversalMethod(), idx("tree_search_strategy", ts, 2), ctx);
  std::string sel = val.count("variable_selection") ? val["variable_selection"] : bb ? "nlp-strong-branching" : "strong-branching";
  double expStrong = sel == "most-fractional" ? 0 : num("number_strong_branch", bb ? 1000 : 20);
  double expTrust = sel == "most-fractional" ? 0 : sel == "reliability-branching" ? 10 : num("number_before_trust", bb ? 1 : 8);
  bool presetWins = !(bb && (val.count("number_strong_branch") || val.count("number_before_trust")) && (sel == "most-fractional" || sel == "reliability-branching"));
  if (presetWins) same("number_strong_branch", (double)b.getIntParameter(S::NumberStrong), expStrong, ctx);
  if (presetWins) same("number_before_trust", (double)b.getIntParameter(S::MinReliability), expTrust, ctx);
  bool own = sel.find("-strong-branching") != std::string::npos;
  OsiChooseVariable *ch = b.branchingMethod();
  bool expMethod = own || sel == "osi-simple" || sel == "osi-strong" || sel == "random";
  if ((ch != nullptr) != expMethod) ev_viol("option-not-used:variable_selection", std::string("branching method ") + (ch ? "set" : "missing") + " with " + ctx);
  if (ch) {
    if (own != (dynamic_cast<BonChooseVariable *>(ch) != nullptr)) ev_viol("option-not-used:variable_selection", "wrong kind of branching method with " + ctx);
    if ((sel == "osi-strong") != (!own && dynamic_cast<OsiChooseStrong *>(ch) != nullptr)) ev_viol("option-not-used:variable_selection", "wrong kind of branching method with " + ctx);
    if (bb || sel == "osi-strong") same("number_strong_branch(branching)", (double)ch->numberStrong(), expStrong, ctx);
    if (sel == "osi-strong" && !bb) same("number_before_trust(branching)", (double)dynamic_cast<OsiChooseStrong *>(ch)->numberBeforeTrusted(), expTrust, ctx);
  }
  // heuristics: exactly those asked for (or set by default for the algorithm), each once
  std::map<std::string, int> have, want;
  for (auto &h : b.heuristics()) have[h.id]++;
  if (!bb) want["nonlinear program"] = 1;
  for (auto &h : heur) {
    bool def = bb && (std::string(h.opt) == "heuristic_dive_MIP_fractional" || (std::string(h.opt) == "heuristic_feasibility_pump" && !general));
    if (bb && std::string(h.opt) == "heuristic_feasibility_pump" && general) { have.erase(h.id); continue; }
    if (on(h.opt, def)) want[h.id] = 1;
  }
  ev_obs("heuristic_lists");
  if (have != want) {
    std::string s;
    for (auto &h : have) s += " " + h.first + fmt("(%d)", h.second);
    s += " instead of";
    for (auto &h : want) s += " " + h.first;
    ev_viol("option-not-used:heuristics", s + " with " + ctx);
  }
  // cut generators and their frequencies
  std::map<std::string, int> hc, wc;
  for (auto &q : b.cutGenerators()) hc[q.id] = q.frequency;
  if (!bb) {
    wc["Outer Approximation feasibility check."] = 1, wc["Outer Approximation strong branching solution check."] = 1;
    if (c.algo == "B-Hyb" || c.algo == "B-iFP") wc["Feasibility Pump for MINLP."] = -99;
    if (c.algo == "B-OA") wc["Outer Approximation decomposition."] = -99;
    if (c.algo == "B-Hyb" && num("nlp_solve_frequency", 10) != 0) wc["NLP solution based oa cuts"] = (int)num("nlp_solve_frequency", 10);
    int ecp = c.algo == "B-Ecp" ? 1 : (int)num("filmint_ecp_cuts", 0);
    if (ecp) wc["Ecp cuts"] = ecp;
    if (c.algo == "B-Hyb" || c.algo == "B-Ecp")
      for (auto &q : cuts) if (num(q.opt, q.def) != 0) wc[q.id] = (int)num(q.opt, q.def);
  }
  ev_obs("cut_lists");
  if (hc != wc) {
    std::string s;
    for (auto &h : hc) s += " " + h.first + fmt("(%d)", h.second);
    s += " instead of";
    for (auto &h : wc) s += " " + h.first + fmt("(%d)", h.second);
    ev_viol("option-not-used:cuts", s + " with " + ctx);
  }
  for (auto &q : b.cutGenerators())
    if (OaDecompositionBase *oa = dynamic_cast<OaDecompositionBase *>(q.cgl)) {
      const auto &P = oa->parameter();
      same("oa_log_frequency", P.logFrequency_, num("oa_log_frequency", 100), ctx);
      same("add_only_violated_oa", (int)P.addOnlyViolated_, (int)on("add_only_violated_oa", false), ctx);
      same("oa_cuts_scope", (int)P.global_, val.count("oa_cuts_scope") ? (int)(val["oa_cuts_scope"] == "global") : 1, ctx);
      same("milp_log_level", (double)P.subMilpLogLevel_, num("milp_log_level", 0), ctx);
      same("cutoff_decr(oa)", P.cbcCutoffIncrement_, num("cutoff_decr", 1e-5), ctx);
      same("integer_tolerance(oa)", P.cbcIntegerTolerance_, num("integer_tolerance", 1e-6), ctx);
      same("allowable_fraction_gap(oa)", P.gap_tol_, num("allowable_fraction_gap", 0), ctx);
      bool isOa = dynamic_cast<OACutGenerator2 *>(q.cgl), isFp = dynamic_cast<MinlpFeasPump *>(q.cgl);
      if (isOa || isFp) ev_obs("decompositions_checked");
      (void)fpTime;
      double sols = num("solution_limit", INTMAX);
      if (isOa && oaSols > 0) same("oa_decomposition.solution_limit", (double)P.maxSols_, std::min<double>(oaSols, sols), ctx);
      if (isFp && fpSols > 0 && c.algo == "B-iFP") same("pump_for_minlp.solution_limit", (double)P.maxSols_, std::min<double>(fpSols, sols), ctx);
    }
  // and in the search itself
  // (runs without nested searches, which read their options with other prefixes; B-BB has no LP for the rules of Cbc)
  bool nested = false;
  for (const char *n : {"heuristic_local_branching", "dummy_pump_heuristic", "heuristic_RINS", "fix_and_solve_heuristic", "pump_for_minlp", "MILP_rounding_heuristic"}) nested = nested || on(n, false);
  if (r.p(0.7) && !nested && !(bb && (sel == "strong-branching" || sel == "reliability-branching" || sel == "most-fractional"))) {
    Bab bab;
    std::string e2 = guarded([&] { bab(b); });
    if (!e2.empty()) { ev_note("run threw " + e2); return; }
    ev_obs("runs_checked");
    CbcModel &m = bab.model();
    same("node_limit(search)", (double)m.getMaximumNodes(), num("node_limit", INTMAX), ctx);
    same("solution_limit(search)", (double)m.getMaximumSolutions(), num("solution_limit", INTMAX), ctx);
    same("integer_tolerance(search)", m.getIntegerTolerance(), num("integer_tolerance", 1e-6), ctx);
    same("allowable_gap(search)", m.getAllowableGap(), num("allowable_gap", 0), ctx);
    same("allowable_fraction_gap(search)", m.getAllowableFractionGap(), num("allowable_fraction_gap", 0), ctx);
    same("num_cut_passes(search)", (double)m.getMaximumCutPasses(), num("num_cut_passes", 1), ctx);
    same("num_cut_passes_at_root(search)", (double)m.getMaximumCutPassesAtRoot(), num("num_cut_passes_at_root", 20), ctx);
    if (presetWins) same("number_strong_branch(search)", (double)m.numberStrong(), expStrong, ctx), same("number_before_trust(search)", (double)m.numberBeforeTrust(), expTrust, ctx);
    same("heuristics(search)", (double)m.numberHeuristics(), (double)b.heuristics().size() + (val.count("node_comparison") && val["node_comparison"] == "best-guess"), ctx);
    same("cuts(search)", (double)m.numberCutGenerators(), (double)b.cutGenerators().size(), ctx);
  }
}
ModeReg r1("optstore", caseStore), r2("optuse", caseUse);
}  // namespace
