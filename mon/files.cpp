// C24: bounds, names and starting-point files. Files are written by the monitor in its scratch directory (cwd).
#include "nlp.hpp"
#include "BonBoundsReader.hpp"
#include "BonColReader.hpp"
#include "BonStartPointReader.hpp"
#include "BonTNLPSolver.hpp"
#include <memory>
#include <unistd.h>
using namespace mon;
using namespace Bonmin;
namespace {
std::string ws(Rng &r) { return r.pick(std::vector<std::string>{" ", "\t", "   ", " \t"}); }
std::string nl(Rng &r) { return r.p(0.8) ? "\n" : r.pick(std::vector<std::string>{"\n\n", " \n", "\t\n\n\n"}); }
void put(const std::string &name, const std::string &text) {
  FILE *f = fopen(name.c_str(), "wb");
  fwrite(text.data(), 1, text.size(), f);
  fclose(f);
}
double num(Rng &r) {
  int k = r.i(0, 6);
  if (k == 0) return r.i(-9, 9);
  if (k == 1) return r.u(-1, 1) * std::pow(10., r.i(-12, 12));
  if (k == 2) return r.pick(std::vector<double>{1e20, -1e20, 0, -0., 1e-300, 1. / 3});
  return r.nice(-50, 50);
}
std::vector<double> lows(OsiTMINLPInterface *s) { return std::vector<double>(s->getColLower(), s->getColLower() + s->getNumCols()); }
std::vector<double> ups(OsiTMINLPInterface *s) { return std::vector<double>(s->getColUpper(), s->getColUpper() + s->getNumCols()); }
struct Files {
  std::vector<std::string> names;
  std::string name(Rng &r) {
    std::string s = "f" + std::to_string(names.size()) + r.pick(std::vector<std::string>{"", ".bnd", "_bounds", ".x"});
    names.push_back(s);
    return s;
  }
  ~Files() { for (auto &s : names) unlink(s.c_str()); }
};
void bounds(Rng &r, OsiTMINLPInterface *si, Files &F) {
  int n = si->getNumCols();
  std::unique_ptr<BoundsReader> br(r.p(0.5) ? new BoundsReader() : new BoundsReader(std::string("nowhere")));
  int rounds = r.i(1, 3);
  for (int q = 0; q < rounds; q++) {
    std::string f = F.name(r), text;
    int kind = r.i(0, 9);  // 0 missing 1 garbage 2 bad index 3 truncated, else fine
    int cnt = r.p(0.15) ? 0 : r.p(0.05) ? r.i(200, 3000) : r.i(1, 2 * n);
    std::vector<double> lo = lows(si), up = ups(si);
    const std::vector<double> lo0 = lo, up0 = up;
    int bad = cnt ? r.i(0, cnt - 1) : -1;
    bool expectThrow = kind == 0;
    if (r.p(0.1)) text += nl(r);
    for (int c = 0; c < cnt; c++) {
      bool isLo = r.p(0.5);
      int j = r.i(0, n - 1);
      double v = num(r);
      std::string tag = isLo ? "LO" : "UP";
      std::string idx = std::to_string(j), val = fmt("%.17g", v);
      if (c == bad && kind == 1) tag = r.pick(std::vector<std::string>{"FX", "lo", "LOW", "X", "UPPER"}), expectThrow = true;
      if (c == bad && kind == 2) idx = std::to_string(r.p(0.5) ? n + r.i(0, 5) : -1 - r.i(0, 3)), expectThrow = true;
      if (c == bad && kind == 3) val = r.p(0.5) ? "" : "?", expectThrow = true;
      text += (r.p(0.1) ? ws(r) : "") + tag + ws(r) + idx + ws(r) + val;
      if (r.p(0.1)) text += ws(r) + "rest of the line";
      if (r.p(0.01)) text += ws(r) + std::string(15000, 'x');
      if (c + 1 < cnt || r.p(0.7)) text += nl(r);
      if (kind == 3 && c == bad) break;
      (isLo ? lo : up)[j] = v;
    }
    if (kind != 0) put(f, text);
    br->setFileName(f);
    if (kind != 0 && !expectThrow && r.p(0.2)) {
      std::string ex = guarded([&] { br->read(f); });
      if (!ex.empty()) ev_viol("bounds-read-threw", ex + ": " + text.substr(0, 300));
    }
    std::string ex = guarded([&] { br->readAndApply(si); });
    ev_obs("bounds_files");
    std::vector<double> l1 = lows(si), u1 = ups(si);
    if (expectThrow) {
      ev_obs("bad_bounds_files");
      if (ex.empty()) ev_viol(kind == 0 ? "bounds-missing-file-silent" : "bounds-malformed-silent", fmt("kind %d: ", kind) + text.substr(0, 300));
      if (l1 != lo0 || u1 != up0) ev_viol("bounds-half-applied", fmt("kind %d: ", kind) + text.substr(0, 300));
      continue;
    }
    if (!ex.empty()) { ev_viol("bounds-read-threw", ex + ": " + text.substr(0, 300)); continue; }
    ev_obs("bounds_applied", cnt);
    for (int j = 0; j < n; j++)
      if (l1[j] != lo[j] || u1[j] != up[j]) {
        ev_viol("bounds-differ", fmt("variable %d: [%.17g,%.17g] instead of [%.17g,%.17g], file of %d entries: ", j, l1[j], u1[j], lo[j], up[j], cnt) + text.substr(0, 300));
        break;
      }
  }
}
void namesFile(Rng &r, Files &F) {
  std::string base = r.pick(std::vector<std::string>{"a", "prob", "x.y", "longer_name", "nl", "q.nlx"});
  std::string suffix = r.pick(std::vector<std::string>{".col", ".row", ".names"});
  bool ext = r.p(0.4);
  std::unique_ptr<NamesReader> nr;
  std::string arg = base + (ext ? ".nl" : "");
  if (suffix == ".col" && r.p(0.5)) nr.reset(new NamesReader(arg));
  else if (r.p(0.5)) nr.reset(new NamesReader(arg, suffix));
  else nr.reset(new NamesReader(arg.c_str(), suffix.c_str()));
  F.names.push_back(base + suffix);
  if (r.p(0.2)) {
    unlink((base + suffix).c_str());
    if (nr->readFile()) ev_viol("names-missing-file", "a file that does not exist was read");
    ev_obs("missing_names_files");
  }
  int rounds = r.i(1, 2);
  for (int q = 0; q < rounds; q++) {
    int cnt = r.p(0.1) ? 0 : r.p(0.1) ? r.i(300, 2000) : r.i(1, 40);
    std::vector<std::string> nm;
    std::string text;
    for (int i = 0; i < cnt; i++) {
      std::string s = r.pick(std::vector<std::string>{"x", "y[", "var_", "_", "Flow['a','b'].", "a_name_that_is_longer_than_any_small_buffer_of_a_string_"}) + std::to_string(i) +
                      (r.p(0.3) ? "]" : "");
      nm.push_back(s);
      text += s;
      if (i + 1 < cnt || r.p(0.7)) text += nl(r);
    }
    put(base + suffix, text);
    bool ok = r.p(0.5) ? nr->readFile() : nr->readFile(arg);
    ev_obs("names_files");
    if (!ok) { ev_viol("names-not-read", arg + " with suffix " + suffix); return; }
    OsiSolverInterface::OsiNameVec out;
    out.push_back("old");
    nr->copyNames(out);
    if (out.size() != nm.size()) ev_viol("names-differ", fmt("%d names instead of %d", (int)out.size(), cnt));
    for (int i = 0; i < cnt && i < (int)out.size(); i++) {
      int ix = nr->index(nm[i].c_str());
      if (out[i] != nm[i] || nr->name(i) != nm[i] || ix != i) {
        ev_viol("names-differ", fmt("name %d of %d: %s, %s, index %d instead of %s", i, cnt, out[i].c_str(), nr->name(i).c_str(), ix, nm[i].c_str()));
        break;
      }
    }
    ev_obs("names_checked", cnt);
  }
}
bool sameStart(OsiTMINLPInterface *si, const std::vector<double> &x, const std::vector<double> *d, std::string &what) {
  int n = si->getNumCols(), m = si->getNumRows();
  const TMINLP2TNLP *p = si->problem();
  const double *xi = p->x_init(), *di = p->duals_init();
  if ((xi == nullptr) != x.empty()) { what = xi ? "a primal point appeared" : "no primal point"; return false; }
  for (int i = 0; xi && i < n; i++)
    if (xi[i] != x[i]) { what = fmt("primal %d is %.17g instead of %.17g", i, xi[i], x[i]); return false; }
  if (d) {
    if (!di) { what = "no duals"; return false; }
    for (int i = 0; i < 2 * n + m; i++)
      if (di[i] != (*d)[i]) { what = fmt("dual %d is %.17g instead of %.17g", i, di[i], (*d)[i]); return false; }
  }
  return true;
}
void startFile(Rng &r, OsiTMINLPInterface *si, Files &F) {
  int n = si->getNumCols(), m = si->getNumRows();
  std::string f = F.name(r);
  std::unique_ptr<StartPointReader> sr(r.p(0.5) ? new StartPointReader(f) : new StartPointReader(f.c_str()));
  int rounds = r.i(1, 3);
  std::vector<double> lastX, lastD;
  for (int q = 0; q < rounds; q++) {
    int kind = r.i(0, 7);  // 0 missing 1 too short 2 other dimensions 3 garbage 4 empty
    unlink(f.c_str());
    int np = n, nd = 2 * n + m;
    if (kind == 2) { if (r.p(0.5)) np += r.p(0.5) ? 1 : -1; else nd += r.p(0.5) ? 2 : -1; }
    std::vector<double> x(std::max(np, 0)), d(std::max(nd, 0));
    for (auto &v : x) v = num(r);
    for (auto &v : d) v = num(r);
    std::string text = fmt("%d%s%d\n", np, ws(r).c_str(), nd);
    size_t tot = x.size() + d.size(), stop = kind == 1 ? r.i(0, (int)tot - 1) : tot, bad = kind == 3 ? r.i(0, (int)tot - 1) : tot;
    for (size_t i = 0; i < stop; i++) text += (i == bad ? "zzz" : fmt("%.17g", i < x.size() ? x[i] : d[i - x.size()])) + (r.p(0.9) ? "\n" : " ");
    if (kind == 4) text = r.p(0.5) ? "" : "\n";
    if (kind != 0) put(f, text);
    // what the solver holds before
    std::vector<double> before, duals0;
    if (si->problem()->x_init()) before.assign(si->problem()->x_init(), si->problem()->x_init() + n);
    if (si->problem()->duals_init()) duals0.assign(si->problem()->duals_init(), si->problem()->duals_init() + 2 * n + m);
    bool ok = false;
    std::string ex = guarded([&] { ok = sr->readAndApply(si); });
    ev_obs("start_files");
    std::string what;
    if (kind <= 4) {
      ev_obs("bad_start_files");
      if (ok && ex.empty()) ev_viol("start-bad-file-accepted", fmt("kind %d: ", kind) + text.substr(0, 200));
      if (!sameStart(si, before, duals0.empty() ? nullptr : &duals0, what)) ev_viol("start-changed-by-bad-file", fmt("kind %d: ", kind) + what);
      continue;
    }
    if (!ex.empty() || !ok) { ev_viol("start-not-read", ex + text.substr(0, 200)); continue; }
    if (!sameStart(si, x, &d, what)) ev_viol("start-differs", what);
    for (int i = 0; i < n; i++)
      if (sr->getPrimals()[i] != x[i]) { ev_viol("start-differs", "getPrimals"); break; }
    for (int i = 0; i < nd; i++)
      if (sr->getDuals()[i] != d[i]) { ev_viol("start-differs", "getDuals"); break; }
    ev_obs("start_values", tot);
  }
}
// what the library writes about an unsolved NLP is what it reads back
void roundTrip(Rng &r, OsiTMINLPInterface *si, Files &F) {
  int n = si->getNumCols(), m = si->getNumRows();
  std::unique_ptr<OsiTMINLPInterface> a(dynamic_cast<OsiTMINLPInterface *>(si->clone())), b(dynamic_cast<OsiTMINLPInterface *>(si->clone()));
  for (int j = 0; j < n; j++) {
    double l = a->problem()->orig_x_l()[j], u = a->problem()->orig_x_u()[j];
    if (u - l > 1e10 || u <= l) continue;
    double p = r.u(l, u), q = r.u(l, u);
    if (p > q) std::swap(p, q);
    if (r.p(0.4)) a->setColLower(j, p);
    if (r.p(0.4)) a->setColUpper(j, q);
  }
  for (int j = 0; j < n; j++) b->setColBounds(j, a->problem()->orig_x_l()[j], a->problem()->orig_x_u()[j]);
  std::vector<double> x(n), d(2 * n + m);
  for (auto &v : x) v = r.u(-3, 3);
  for (auto &v : d) v = r.u(0, 3);
  a->setColSolution(x.data());
  bool duals = r.p(0.6);
  if (duals) a->setRowPrice(d.data());
  bool had = a->problem()->duals_init() != nullptr;
  std::string name = F.name(r);
  F.names.push_back(name + "_bounds"), F.names.push_back(name + "_start"), F.names.push_back(name + "_bounds.mod"), F.names.push_back(name + ".col");
  bool withNames = r.p(0.3);
  if (withNames) {
    std::string t;
    for (int j = 0; j < n; j++) t += fmt("v%d\n", j);
    put(name + ".col", t);
  }
  std::unique_ptr<TNLPSolver::UnsolvedError> E(const_cast<TNLPSolver *>(a->solver())->newUnsolvedError(-13, a->problem(), name));
  E->writeDiffFiles("");
  BoundsReader br(name + "_bounds");
  StartPointReader sr(name + "_start");
  std::string ex = guarded([&] { br.readAndApply(b.get()); });
  bool ok = sr.readAndApply(b.get());
  ev_obs("round_trips");
  if (!ex.empty() || !ok) ev_viol("round-trip", "a file the library wrote could not be read: " + ex);
  for (int j = 0; j < n; j++) {
    double dl = std::fabs(a->getColLower()[j] - b->getColLower()[j]), du = std::fabs(a->getColUpper()[j] - b->getColUpper()[j]);
    // bounds that differ from the original by a relative 1e-10 only are not written
    if (dl > 1e-9 * (1 + std::fabs(a->getColLower()[j])) || du > 1e-9 * (1 + std::fabs(a->getColUpper()[j]))) {
      ev_viol("round-trip", fmt("bounds of %d: [%.17g,%.17g] instead of [%.17g,%.17g]", j, b->getColLower()[j], b->getColUpper()[j], a->getColLower()[j], a->getColUpper()[j]));
      break;
    }
  }
  std::string what;
  if (ok && !sameStart(b.get(), x, duals ? &d : nullptr, what)) ev_viol("round-trip", what);
  (void)had;
}
void caseFiles(uint64_t seed, long k, const std::map<std::string, std::string> &a) {
  Rng r(mix(seed, k) ^ 0xf11e);
  GenOpts g;
  Model M = genConvex(mix(seed, k), g);
  Ipopt::SmartPtr<MTMINLP> t = new MTMINLP(M, false);
  Config c;
  NlpUnderTest N(GetRawPtr(t), c);
  if (!N.error.empty()) { ev_obs("setup_failed"); return; }
  Files F;
  int ops = r.i(2, 6);
  for (int o = 0; o < ops; o++) switch (r.i(0, 3)) {
      case 0: bounds(r, N.si, F); break;
      case 1: namesFile(r, F); break;
      case 2: startFile(r, N.si, F); break;
      default: roundTrip(r, N.si, F);
    }
}
ModeReg r1("files", caseFiles);
}  // namespace
