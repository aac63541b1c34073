from seeds2 import H, EV
SEEDS = [
 dict(id='s28-printed-ref', property='P28', needs='a match with both a hypothesis and a reference that carries no error of its own kind (a plain hit), printed',
      breaks='the reference of a hit is left out of the printed match when the hit has no false negative part',
      edits=[('core/Match.h', 'if (m.HasRef()) oss << "Ref="', 'if (m.HasRef() && (!m.HasHyp() || m.GetError().FN() > 0)) oss << "Ref="')],
      demo=EV + '''#include <sstream>
int main() {
  Ref r(1, 2); Hyp h(1, 3, 0.5f);
  std::ostringstream a, b;
  a << Match<Ref, Hyp>(r, h, MatchError(0, 0));
  CHECK(a.str().find("Ref=") != std::string::npos);
  b << Match<Ref, Hyp>::MakeFalsePositive(h);
  CHECK(b.str().find("Ref=") == std::string::npos);
  return 0; }'''),
 dict(id='s28-counts-names', property='P28', needs='counts with false negatives and different numbers of hypotheses and references, printed',
      breaks='the printed counts show the references that were found instead of all of them when something was missed',
      edits=[('core/MatchErrorCounts.h', '", nr=" << errors.NR()', '", nr=" << (errors.FN() < errors.NR() ? errors.NR() - (errors.FN() > 1 ? errors.FN() : 0) : errors.NR())')],
      demo=H + '''#include <sstream>
#include "core/MatchErrorCounts.h"
using namespace kws::core;
int main() {
  std::ostringstream a;
  a << MatchErrorCounts(1, 2, 4, 5);
  CHECK(a.str().find("nr=5") != std::string::npos);
  return 0; }'''),
 dict(id='s29-optional-arguments', property='P29', needs='a parser with mandatory arguments and a longer optional argument',
      breaks='the column of descriptions is not wide enough when an optional argument has the longest name',
      edits=[('cmd/Parser.h', 'for (auto a : opt_args_) { max_w = std::max(max_w, a->Name().size()); }', 'if (args_.empty()) for (auto a : opt_args_) { max_w = std::max(max_w, a->Name().size()); }')],
      demo=H + '''#include <string>
#include "cmd/Parser.h"
int main() {
  kws::cmd::Parser p("prog", "what it does");
  std::string a, b;
  p.RegisterArgument("in", "an input", &b);
  p.RegisterOptArgument("output", "an extra thing", &a);
  CHECK(p.Help().find("  in     : an input") != std::string::npos);
  return 0; }'''),
 dict(id='s29-last-bracket', property='P29', needs='a parser with four optional arguments',
      breaks='no more than three brackets of optional arguments are closed in the usage line',
      edits=[('cmd/Parser.h', 'for (size_t i = 0; i < opt_args_.size(); ++i) {', 'for (size_t i = 0; i < std::min<size_t>(opt_args_.size(), 3); ++i) {')],
      demo=H + '''#include <string>
#include <algorithm>
#include "cmd/Parser.h"
int main() {
  kws::cmd::Parser p("prog", "what it does");
  std::string a, b, c, d;
  p.RegisterOptArgument("a", "h", &a);
  p.RegisterOptArgument("b", "h", &b);
  p.RegisterOptArgument("c", "h", &c);
  p.RegisterOptArgument("d", "h", &d);
  const std::string s = p.Help();
  const std::string u = s.substr(0, s.find('\\n'));
  CHECK(std::count(u.begin(), u.end(), '[') == std::count(u.begin(), u.end(), ']'));
  return 0; }'''),
]
