# refactorings with library algorithms (C++14)
import json
L=[]
A='core/Assessment.h'; P='cmd/Parser.h'; O='cmd/Option.h'; BS='core/Bootstrapping.h'; SM='matcher/SimpleMatcher.h'; G='tools/GenericKwsEvalTool.h'
SRC={}
def span(f,a,b):
    s=SRC.setdefault(f,open('/repo/'+f).read()); i=s.index(a); j=s.index(b,i)+len(b); return s[i:j]
def m(name,f,a,b,new,props,extra=()):
    L.append(dict(name=name,edits=[dict(file=f,old=span(f,a,b),new=new)]+[dict(file=f,old=o,new=n) for o,n in extra],props=props if isinstance(props,list) else [props],expect='quiet'))
inc=('#include <','#include <numeric>\n#include <iterator>\n#include <functional>\n#include <')
def ma(name,f,a,b,new,props,extra=()):
    s=open('/repo/'+f).read(); i=s.index('#include'); line=s[i:s.index('\n',i)]
    m(name,f,a,b,new,props,list(extra)+[(line,line+'\n#include <algorithm>\n#include <numeric>\n#include <iterator>\n#include <functional>')])
ma('even generate',A,'    for (size_t k = 0; k < num_points; ++k) {','    }\n','''    x->resize(num_points);
    size_t k = 0;
    std::generate(x->begin(), x->end(), [&k, num_points]() { return static_cast<Real>(k++) / (num_points - 1); });
''',['P24','P25'])
ma('even iota transform',A,'    for (size_t k = 0; k < num_points; ++k) {','    }\n','''    std::vector<size_t> steps(num_points);
    std::iota(steps.begin(), steps.end(), 0);
    std::transform(steps.begin(), steps.end(), std::back_inserter(*x),
                   [num_points](size_t k) { return static_cast<Real>(k) / (num_points - 1); });
''',['P24','P25'])
ma('z accumulate',A,'    for (size_t j = 1; j <= TR; ++j) {\n      z','    }\n','''    std::vector<Real> gains;
    for (size_t j = 1; j <= TR; ++j) gains.push_back(1 / log2(j + 1));
    z = std::accumulate(gains.begin(), gains.end(), Real(0));
''',['P12','P25'])
ma('interp partial',A,'  if (interpolate && errors.size() > 1) {','    }\n  }\n','''  if (interpolate) {
    std::partial_sum(pr->rbegin(), pr->rend(), pr->rbegin(),
                     [](Real a, Real b) { return std::max(a, b); });
  }
''',['P09','P25'])
ma('ap inner product',A,'  Real AP2 = 0.0;','  return AP1 - AP2;\n','''  Real AP2 = 0.0;
  if (trapezoid) {
    for (size_t i = 1; i < pr.size(); ++i) AP2 += rc[i - 1] * (0.5 * (pr[i] + pr[i - 1]));
  } else if (pr.size() > 1) {
    AP2 = std::inner_product(pr.begin() + 1, pr.end(), rc.begin(), Real(0));
  }
  return AP1 - AP2;
''',['P11','P25'])
ma('curve lower bound step',A,'    for (; j < src_x.size()','++j) {}\n','''    j = std::find_if(src_x.begin() + j, src_x.end(), [&](const Real& v) { return !(v < dst_x[i]); }) - src_x.begin();
''',['P24','P25'])
ma('flatten accumulate',A,'  for (const auto &matches_vector : matches_by_query) {\n    for (const auto &match','    }\n  }\n','''  size_t total = 0;
  for (const auto &v : matches_by_query) total += v.size();
  all_matches.reserve(total);
  for (const auto &v : matches_by_query) std::copy(v.begin(), v.end(), std::back_inserter(all_matches));
''',['P14','P15'])
ma('flatten for_each',A,'  for (const auto &matches_vector : matches_by_query) {\n    for (const auto &match','    }\n  }\n','''  std::for_each(matches_by_query.begin(), matches_by_query.end(),
                [&all_matches](const std::vector<Match> &v) { all_matches.insert(all_matches.end(), v.begin(), v.end()); });
''',['P14','P15'])
ma('mean accumulate',A,'  double sumNDCG = 0.0;','  }\n  // Average NDCG','''  const double sumNDCG = std::accumulate(
      matches_by_query.begin(), matches_by_query.end(), 0.0,
      [&](double sum, std::vector<Match> group) {
        if (sort_matches) SortMatchesDecreasingScore(&group);
        return sum + ComputeGlobalNDCG(group, collapse_matches);
      });
  // Average NDCG''',['P14','P15'])
ma('refs set range insert',SM,'    refs_set_->Clear();\n','    std::set<RE> unmatched_refs(refs.begin(), refs.end());\n','''    refs_set_->Clear();
    std::for_each(refs.begin(), refs.end(), [this](const RE &r) { refs_set_->Insert(r); });
    std::set<RE> unmatched_refs;
    std::copy(refs.begin(), refs.end(), std::inserter(unmatched_refs, unmatched_refs.end()));
''',['P05','P06'])
ma('fn transform',SM,'    for (const RE& ref : unmatched_refs) {','    }\n','''    std::transform(unmatched_refs.begin(), unmatched_refs.end(), std::back_inserter(result),
                   &kws::core::Match<RE, HE>::MakeFalseNegative);
''',['P05','P06'])
ma('ci nth element',BS,'  std::sort(statistics_diffs.begin(), statistics_diffs.end());','  *upper_bound = observed_statistic - statistics_diffs[ui];\n','''  const size_t last = statistics_diffs.size() - 1;
  const auto li = std::min((size_t)((1.0 - alpha * 0.5) * repetitions), last);
  const auto ui = std::min((size_t)((      alpha * 0.5) * repetitions), last);
  std::nth_element(statistics_diffs.begin(), statistics_diffs.begin() + li, statistics_diffs.end());
  *lower_bound = observed_statistic - statistics_diffs[li];
  std::nth_element(statistics_diffs.begin(), statistics_diffs.begin() + ui, statistics_diffs.end());
  *upper_bound = observed_statistic - statistics_diffs[ui];
''',['P16'])
ma('ci descending',BS,'  std::sort(statistics_diffs.begin(), statistics_diffs.end());','  *upper_bound = observed_statistic - statistics_diffs[ui];\n','''  std::sort(statistics_diffs.begin(), statistics_diffs.end(), std::greater<double>());
  const size_t last = statistics_diffs.size() - 1;
  const auto li = std::min((size_t)((1.0 - alpha * 0.5) * repetitions), last);
  const auto ui = std::min((size_t)((      alpha * 0.5) * repetitions), last);
  *lower_bound = observed_statistic - statistics_diffs[last - li];
  *upper_bound = observed_statistic - statistics_diffs[last - ui];
''',['P16'])
ma('ci sorted insert',BS,'    statistics_diffs.push_back(sample_statistic - observed_statistic);','observed_statistic);\n','''    const double d = sample_statistic - observed_statistic;
    statistics_diffs.insert(std::upper_bound(statistics_diffs.begin(), statistics_diffs.end(), d), d);
''',['P16'])
ma('width accumulate',P,'    size_t max_w = 0;\n','    for (auto a : opt_args_) { max_w = std::max(max_w, a->Name().size()); }\n','''    size_t max_w = 0;
    std::vector<BaseOption*> everything(args_);
    everything.insert(everything.end(), opt_args_.begin(), opt_args_.end());
    for (const auto& o : opts_) everything.push_back(o.second);
    if (!everything.empty()) {
      max_w = (*std::max_element(everything.begin(), everything.end(), [](BaseOption* a, BaseOption* b) {
        return a->Name().size() < b->Name().size(); }))->Name().size();
    }
''',['P29'])
ma('brackets string',P,'      for (size_t i = 0; i < opt_args_.size(); ++i) {\n        oss << " ]";','      }\n','''      std::string close;
      for (size_t i = 0; i < opt_args_.size(); ++i) close += " ]";
      oss << close;
''',['P29'])
json.dump(L,open('/verif/dev/m16.json','w'),indent=1)
print(len(L))
