// The evaluation tool as a whole: abstract readers, matcher and query mapper,
// and what a run has to do, said once for all its properties.
#ifndef VERIF_TOOL_H_
#define VERIF_TOOL_H_
#include "common.h"
#include "core/Match.h"
#include "tools/GenericKwsEvalTool.h"
typedef kws::core::Match<IEv, ISEv> MT;
typedef std::vector<MT> MTs;
typedef std::vector<MTs> MGs;
struct RefSource { virtual bool Read(const std::string &name, std::vector<IEv> *events) = 0; virtual bool Read(std::istream *is, std::vector<IEv> *events) = 0; };
struct HypSource { virtual bool Read(const std::string &name, std::vector<ISEv> *events) = 0; virtual bool Read(std::istream *is, std::vector<ISEv> *events) = 0; };
struct AnyMatcher {
  typedef IEv RefEvent;
  typedef ISEv HypEvent;
  typedef MT MatchType;
  virtual MTs Match(const std::vector<IEv> &refs, const std::vector<ISEv> &hyps) = 0;
  virtual const MTs &GetRepeatedMatches() const = 0;
};
struct AnyMapper {
  typedef int32_t OutputType;
  virtual int32_t operator()(const std::string &q) = 0;
};
typedef kws::tools::GenericKwsEvalTool<RefSource, HypSource, AnyMatcher, AnyMapper> Tool;
template class kws::tools::GenericKwsEvalTool<RefSource, HypSource, AnyMatcher, AnyMapper>;
namespace expect {
bool Parsed(int argc, const char **argv);
void Focus(const char *names);
void UntilGroups();  // sources and a matcher that yield nothing, and the run is followed up to the groups
void UntilMatch();  // the run is followed up to the matcher, and ends with what that is given
bool Given(const char *name, bool value);
size_t Given(const char *name, size_t value);
double Given(const char *name, double value);
std::string Given(const char *name, const std::string &value);
template <class E> void Keep(const std::map<int32_t, int32_t> &groups, std::vector<E> *events) {
  std::vector<E> kept;
  for (size_t i = 0; i < events->size(); ++i)
    if (groups.find((*events)[i].Query()) != groups.end()) kept.push_back((*events)[i]);
  *events = kept;
}
inline bool ReadSet(const std::string &name, AnyMapper *mapper, std::map<int32_t, int32_t> *groups) {
  std::ifstream is(name);
  if (!is.is_open()) return false;
  std::string word;
  while (is >> word) {
    const int32_t q = (*mapper)(word);
    (*groups)[q] = q;
  }
  return true;
}
inline bool ReadGroups(const std::string &name, AnyMapper *mapper, std::map<int32_t, int32_t> *groups) {
  std::ifstream is(name);
  if (!is.is_open()) return false;
  std::string line;
  while (std::getline(is, line)) {
    std::istringstream words(line);
    std::string word;
    std::vector<int32_t> named;
    while (words >> word) named.push_back((*mapper)(word));
    if (named.size() < 2) return false;
    for (size_t i = 1; i < named.size(); ++i) (*groups)[named[i]] = named[0];
  }
  return true;
}
inline void Dump(std::ofstream &os, const MTs &matches, const MTs &repeated) {
  for (size_t i = 0; i < matches.size(); ++i) os << matches[i] << '\n';
  os << "#### REPEATED MATCHES ####\n";
  for (size_t i = 0; i < repeated.size(); ++i) os << "## " << repeated[i] << '\n';
}
inline int Failed() {
  std::cerr << "ERROR";
  return 1;
}
template <class D, class F, class G>
void Report(const char *scope, const char *name, bool interval, const D &data, const MGs &by_group, size_t samples, double alpha,
            size_t seed, F measure, G sampled) {
  if (!interval) {
    std::cout << scope << name << " = " << measure(data) << '\n';
    return;
  }
  double low = 0.0;
  double high = 0.0;
  const double value = kws::core::ComputePercentileBootstrapCI(by_group, samples, alpha, seed, sampled, &low, &high);
  std::cout << scope << name << " = " << value << " [" << low << ", " << high << "]\n";
}
// One run.
inline int Run(RefSource *rr, HypSource *hr, AnyMatcher *matcher, AnyMapper *mapper, int argc, const char **argv) {
  if (!Parsed(argc, argv)) {
    std::cerr << "usage";
    return 1;
  }
  const bool collapse = Given("collapse_matches", true);
  const bool interpolate = Given("interpolated_precision", true);
  const bool trapezoid = Given("trapezoid_integral", true);
  const size_t samples = Given("bootstrap_samples", size_t(10000));
  const size_t seed = Given("bootstrap_seed", size_t(0x12345));
  const double alpha = Given("bootstrap_alpha", 0.05);
  const size_t points = Given("rp_curve_samples", size_t(10000));
  const std::string refs_name = Given("RegisterArgument 0", std::string());
  const std::string hyps_name = Given("RegisterOptArgument 0", std::string());
  const std::string set_name = Given("query_set", std::string());
  const std::string groups_name = Given("query_groups", std::string());
  const std::string dump_name = Given("dump_matches", std::string());
  const std::string order = Given("sort", std::string("desc"));
  const std::string grp_name = Given("output_grp", std::string());
  const std::string mrp_name = Given("output_mrp", std::string());
  if (refs_name == "") return Failed();
  std::vector<IEv> refs;
  std::vector<ISEv> hyps;
  if (!rr->Read(refs_name, &refs)) return Failed();
  if (hyps_name == "") {
    if (!hr->Read(&std::cin, &hyps)) return Failed();
  } else {
    if (!hr->Read(hyps_name, &hyps)) return Failed();
  }
  std::map<int32_t, int32_t> groups;
  if (groups_name != "") {
    if (!ReadGroups(groups_name, mapper, &groups)) return Failed();
  } else if (set_name != "") {
    if (!ReadSet(set_name, mapper, &groups)) return Failed();
  }
  if (!groups.empty()) {
    Keep(groups, &refs);
    Keep(groups, &hyps);
  }
  if (order == "desc") {
    std::sort(hyps.begin(), hyps.end(), std::greater<ISEv>());
  } else if (order == "asc") {
    std::sort(hyps.begin(), hyps.end());
  } else if (order != "none") {
    std::cerr << "WARN";
  }
  const MTs matches = matcher->Match(refs, hyps);
  if (dump_name != "") {
    std::ofstream os(dump_name);
    if (!os.is_open()) return Failed();
    Dump(os, matches, matcher->GetRepeatedMatches());
    os.close();
  }
  size_t counted = 0;
  for (size_t i = 0; i < matches.size(); ++i) counted += matches[i].GetError().NH();
  if (counted > hyps.size()) return Failed();
  MGs by_group;
  kws::core::GroupMatchesByQueryGroup(matches, groups, &by_group);
  Report("g", "AP", Given("bootstrap_ci_gap", false), matches, by_group, samples, alpha, seed,
         [=](const MTs &m) { return kws::core::ComputeGlobalAP<MT>(m, collapse, interpolate, trapezoid); },
         [=](const MGs &g) { return kws::core::ComputeGlobalAP<MT>(g, collapse, interpolate, trapezoid, true); });
  Report("m", "AP", Given("bootstrap_ci_map", false), by_group, by_group, samples, alpha, seed,
         [=](const MGs &g) { return kws::core::ComputeMeanAP<MT>(g, collapse, interpolate, trapezoid, false); },
         [=](const MGs &g) { return kws::core::ComputeMeanAP<MT>(g, collapse, interpolate, trapezoid, true); });
  Report("g", "NDCG", Given("bootstrap_ci_gndcg", false), matches, by_group, samples, alpha, seed,
         [=](const MTs &m) { return kws::core::ComputeGlobalNDCG<MT>(m, collapse); },
         [=](const MGs &g) { return kws::core::ComputeGlobalNDCG<MT>(g, collapse, true); });
  Report("m", "NDCG", Given("bootstrap_ci_mndcg", false), by_group, by_group, samples, alpha, seed,
         [=](const MGs &g) { return kws::core::ComputeMeanNDCG<MT>(g, collapse, false); },
         [=](const MGs &g) { return kws::core::ComputeMeanNDCG<MT>(g, collapse, true); });
#ifdef CURVES
  if (grp_name != "") Tool::WriteGlobalRPCurve(grp_name, matches, points, collapse, interpolate, trapezoid);
  if (mrp_name != "") Tool::WriteMeanRPCurve(mrp_name, by_group, points, collapse, interpolate, trapezoid);
#endif
  return 0;
}
}  // namespace expect
#define RUN(name, focus)                                                                                             \
  PAIR(name, int, (RefSource * rr, HypSource * hr, AnyMatcher * matcher, AnyMapper * mapper, int argc, const char **argv), \
       expect::Focus(focus); Tool tool(rr, hr, matcher, mapper); return tool.Main(argc, argv),                       \
       expect::Focus(focus); return expect::Run(rr, hr, matcher, mapper, argc, argv))
#define PREPARE(name, focus)                                                                                         \
  PAIR(name, int, (RefSource * rr, HypSource * hr, AnyMatcher * matcher, AnyMapper * mapper, int argc, const char **argv), \
       expect::Focus(focus); expect::UntilMatch(); Tool tool(rr, hr, matcher, mapper); return tool.Main(argc, argv), \
       expect::Focus(focus); expect::UntilMatch(); return expect::Run(rr, hr, matcher, mapper, argc, argv))
#define ASSIGN(name, focus)                                                                                         \
  PAIR(name, int, (RefSource * rr, HypSource * hr, AnyMatcher * matcher, AnyMapper * mapper, int argc, const char **argv), \
       expect::Focus(focus); expect::UntilGroups(); Tool tool(rr, hr, matcher, mapper); return tool.Main(argc, argv), \
       expect::Focus(focus); expect::UntilGroups(); return expect::Run(rr, hr, matcher, mapper, argc, argv))
#endif
