import json
L=[]
A='core/Assessment.h'; B='core/Bootstrapping.h'; G='tools/GenericKwsEvalTool.h'
def m(name,old,new,expect='caught',f=A): L.append(dict(name=name,file=f,old=old,new=new,props=['P17'],expect=expect))
m('t seed time','explicit MatchesByQuerySampler(const size_t random_seed)\n      : rng_(random_seed) {}','explicit MatchesByQuerySampler(const size_t random_seed)\n      : rng_(random_seed ? random_seed : time(nullptr)) {}',f=B)
m('t seed device','explicit MatchesByQuerySampler(const size_t random_seed)\n      : rng_(random_seed) {}','explicit MatchesByQuerySampler(const size_t random_seed)\n      : rng_(random_seed) { if (random_seed == 0) { std::random_device rd; rng_.seed(rd()); } }',f=B)
m('t seed address','explicit MatchesByQuerySampler(const size_t random_seed)\n      : rng_(random_seed) {}','explicit MatchesByQuerySampler(const size_t random_seed)\n      : rng_(random_seed ^ reinterpret_cast<size_t>(this)) {}',f=B)
m('t env','    std::cerr << "INFO: Computing matches..." << std::endl;','    if (getenv("KWS_COLLAPSE")) collapse_matches = true;\n    std::cerr << "INFO: Computing matches..." << std::endl;',f=G)
m('t clock','    std::cerr << "INFO: Computing matches..." << std::endl;','    bootstrap_seed += std::chrono::steady_clock::now().time_since_epoch().count();\n    std::cerr << "INFO: Computing matches..." << std::endl;',f=G)
L[-1]['edits']=[dict(file=G,old=L[-1]['old'],new=L[-1]['new']),dict(file=G,old='#include <unordered_map>',new='#include <unordered_map>\n#include <chrono>')]
m('t sort address','return a.GetHyp().Score() > b.GetHyp().Score();','if (a.GetHyp().Score() == b.GetHyp().Score()) return &a < &b;\n                return a.GetHyp().Score() > b.GetHyp().Score();')
m('t sort address2','return a.GetHyp().Score() > b.GetHyp().Score();','if (a.GetHyp().Score() == b.GetHyp().Score()) return &a.GetHyp() < &b.GetHyp();\n                return a.GetHyp().Score() > b.GetHyp().Score();')
m('t omp curve','    //#pragma omp parallel for\n','    #pragma omp parallel for\n',f=G)
m('t omp reduction','      for (size_t q = 1; q <= NQ; ++q) {','      #pragma omp parallel for reduction(+:s)\n      for (size_t q = 1; q <= NQ; ++q) {',f=G)
m('t uninit fp','Real sumFP = 0, sumFN = 0;','Real sumFP, sumFN = 0;')
m('t uninit ap','Real AP1 = 0.0;','Real AP1;')
m('t uninit opt','bool trapezoid_integral = true','bool trapezoid_integral',f=G)
m('t uninit sometimes','  Real sumAP = 0.0;\n  for (size_t i = 0','  Real sumAP; if (pr.size() > 0) sumAP = 0;\n  for (size_t i = 0')
m('t uninit size','size_t curve_samples = ','size_t curve_samples; // ',f=G)
m('tq bounds','double lower_bound = 0.0, upper_bound = 0.0;','double lower_bound, upper_bound;','quiet',f=G)
m('tq omp disjoint','  for (size_t i = 0; i < pr.size(); ++i) {\n    AP1 +=','  std::vector<Real> half(pr.size());\n  #pragma omp parallel for\n  for (size_t i = 0; i < pr.size(); ++i) { half[i] = 0.5 * pr[i]; }\n  for (size_t i = 0; i < pr.size(); ++i) {\n    AP1 +=','quiet')
OLD='''  std::vector<Match> all_matches;
  for (const auto &matches_vector : matches_by_query) {
    for (const auto &match : matches_vector) {
      all_matches.push_back(match);
    }
  }
  if (sort_matches) { SortMatchesDecreasingScore(&all_matches); }
  // Compute precision'''
m('t unordered float','  double sumNDCG = 0.0;\n','  double sumNDCG = 0.0;\n  std::unordered_map<size_t, double> w; for (size_t i = 0; i < 2; ++i) w[i] = 0; for (const auto &kv : w) sumNDCG += kv.second;\n')
m('t unordered list',OLD,OLD.replace('  if (sort','  std::unordered_map<size_t, Match> by; for (const auto &x : all_matches) by.emplace(by.size(), x);\n  all_matches.clear(); for (auto it = by.begin(); it != by.end(); ++it) all_matches.push_back(it->second);\n  if (sort'))
m('t ptr map',OLD,OLD.replace('  if (sort','  std::map<const Match *, size_t> by; for (const auto &x : all_matches) by.emplace(&x, by.size());\n  std::vector<Match> o; for (const auto &kv : by) o.push_back(*kv.first);\n  if (sort').replace('&all_matches)','&o); all_matches = o').replace('(o);','(&o);'),'any')
m('tq unordered set','  double sumNDCG = 0.0;\n','  double sumNDCG = 0.0;\n  std::unordered_map<size_t, size_t> w; size_t n = 0; std::map<size_t, size_t> q; for (size_t i = 0; i < 2; ++i) w[i] = 0; for (const auto &kv : w) { n += kv.second; q[kv.first] = kv.second; }\n','quiet')
m('tq unordered sorted','  double sumNDCG = 0.0;\n','  double sumNDCG = 0.0;\n  std::unordered_map<size_t, size_t> w; std::vector<size_t> q; for (size_t i = 0; i < 2; ++i) w[i] = 0; for (const auto &kv : w) { q.push_back(kv.first); }\n  std::sort(q.begin(), q.end());\n','quiet')
m('tq pointers','  double sumNDCG = 0.0;\n','  double sumNDCG = 0.0;\n  const auto *p = matches_by_query.data(); size_t n = 0; for (const auto *e = p + matches_by_query.size(); p < e; ++p) n++;\n','quiet')
json.dump(L,open('/verif/dev/m11.json','w'),indent=0)
