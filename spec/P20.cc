// P20: which references and hypotheses reach the matcher, and the groups they are assessed by.
#include "tool.h"
PREPARE(set, "RegisterArgument 0,query_set")
PREPARE(groups, "RegisterArgument 0,query_groups")
PREPARE(both, "RegisterArgument 0,query_set,query_groups")
ASSIGN(named, "RegisterArgument 0,query_set")
ASSIGN(grouped, "RegisterArgument 0,query_groups")
RUN(assessed, "RegisterArgument 0,query_set,query_groups")
// A file of two lines: what the second says of a query the first has named.
namespace expect {
inline bool Words(const std::string &line, int n) {
  std::istringstream s(line);
  std::string w;
  if (!(s >> w)) return false;
  if (!(s >> w)) return false;
  if (n > 2 && !(s >> w)) return false;
  return !(s >> w);
}
inline bool Lines(const std::string &name, int n) {
  std::ifstream is(name);
  if (!is.is_open()) return false;
  std::string line;
  if (!std::getline(is, line) || !Words(line, n)) return false;
  if (!std::getline(is, line) || !Words(line, 2)) return false;
  return !std::getline(is, line);
}
}  // namespace expect
#define SMALL(name, focus, n)                                                                                        \
  PAIR(name, int, (RefSource * rr, HypSource * hr, AnyMatcher * matcher, AnyMapper * mapper, int argc, const char **argv), \
       if (!expect::Lines(expect::Given("query_groups", std::string()), n)) return 0;                                \
       expect::Focus(focus); expect::UntilGroups(); Tool tool(rr, hr, matcher, mapper); return tool.Main(argc, argv), \
       if (!expect::Lines(expect::Given("query_groups", std::string()), n)) return 0;                                \
       expect::Focus(focus); expect::UntilGroups(); return expect::Run(rr, hr, matcher, mapper, argc, argv))
SMALL(two_lines, "RegisterArgument 0,query_groups", 2)
