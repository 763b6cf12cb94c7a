#ifndef MON_CUTSPY_HPP
#define MON_CUTSPY_HPP
#include "solve.hpp"
#include "CglCutGenerator.hpp"
namespace mon {
// Shared verdict of the cut monitor for one solve.
struct CutWatch {
  const Model *M = nullptr;
  const Ref *R = nullptr;
  std::vector<std::string> names;   // generator preceding spy i
  long cutsSeen = 0, rowsSeen = 0, lpsSeen = 0, pointChecks = 0, localCuts = 0, colCuts = 0;
  std::map<std::string, long> perGen;
  int reported = 0;
  bool cutsAreForFeasible = true;
  std::string ctx;
};
// A generator that produces nothing: placed behind a real generator, it inspects the cuts that arrived in the
// collection since the previous spy and the LP they were generated for.
class CutSpy : public CglCutGenerator {
 public:
  CutSpy(CutWatch *w, int id) : w_(w), id_(id) {}
  CutSpy(const CutSpy &o) : CglCutGenerator(o), w_(o.w_), id_(o.id_) {}
  CglCutGenerator *clone() const override { return new CutSpy(*this); }
  void generateCuts(const OsiSolverInterface &si, OsiCuts &cs, const CglTreeInfo info = CglTreeInfo()) override;
  CutWatch *w_;
  int id_;
};
// insert a spy behind every generator of the setup
void installSpies(Bonmin::BonminSetup &b, CutWatch &w);
// check that no feasible point (ref points below the cutoff, inside si's bounds) breaks a row of si
void checkLp(const OsiSolverInterface &si, CutWatch &w, const char *where, bool useCutoff = true);
void checkCut(const OsiRowCut &c, const OsiSolverInterface *si, CutWatch &w, const std::string &gen, double cutoff, bool hasAlpha);
}  // namespace mon
#endif
