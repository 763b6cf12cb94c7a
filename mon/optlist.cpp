#include "solve.hpp"
#include "BonRegisteredOptions.hpp"
using namespace Bonmin;
namespace mon {
static void optlist(uint64_t, long, const std::map<std::string, std::string> &) {
  BonminSetup b;
  b.initializeOptionsAndJournalist();
  const auto &L = b.roptions()->RegisteredOptionsList();
  for (auto &p : L) {
    auto o = p.second;
    std::string s = p.first + " [" + o->RegisteringCategory() + "] ";
    if (o->Type() == Ipopt::OT_Integer) s += fmt("int def=%d lo=%d hi=%d", o->DefaultInteger(), o->HasLower() ? o->LowerInteger() : -999999, o->HasUpper() ? o->UpperInteger() : 999999);
    else if (o->Type() == Ipopt::OT_Number) s += fmt("num def=%g lo=%g hi=%g", o->DefaultNumber(), o->HasLower() ? o->LowerNumber() : -1e30, o->HasUpper() ? o->UpperNumber() : 1e30);
    else if (o->Type() == Ipopt::OT_String) { s += "str def=" + o->DefaultString() + " {"; for (auto &v : o->GetValidStrings()) s += v.value_ + ","; s += "}"; }
    ev_note(s);
  }
}
static ModeReg r("optlist", optlist);
}
