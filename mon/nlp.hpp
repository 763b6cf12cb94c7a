#ifndef MON_NLP_HPP
#define MON_NLP_HPP
#include "solve.hpp"
#include "BonOsiTMINLPInterface.hpp"
namespace mon {
// an OsiTMINLPInterface set up through the public setup class
struct NlpUnderTest {
  Bonmin::BonminSetup b;
  Bonmin::OsiTMINLPInterface *si = nullptr;
  std::string error;
  NlpUnderTest(MTMINLP *t, const Config &c) {
    Ipopt::SmartPtr<Bonmin::TMINLP> keep = t;
    error = guarded([&] {
      b.initializeOptionsAndJournalist();
      applyOpts(b, c);
      b.initialize(keep);
      si = b.nonlinearSolver();
      si->messageHandler()->setLogLevel(0);
    });
  }
};
}  // namespace mon
#endif
