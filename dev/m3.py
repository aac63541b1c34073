import json
A='core/Assessment.h'; B='core/Bootstrapping.h'; S='core/Statistic.h'
L=[]
def m(name,props,file,old,new,quiet=False,count=1):
    d=dict(name=name,file=file,old=old,new=new,props=props)
    if quiet: d['expect']='quiet'
    L.append(d)
m('P14 nosort mean ap',['P14'],A,'''    if (sort_matches) { SortMatchesDecreasingScore(&matches_vector); }
    // Compute''','''    if (sort_matches && matches_vector.size() > 2) { SortMatchesDecreasingScore(&matches_vector); }
    // Compute''')
m('P14 mean by nonempty',['P14'],A,'sumNDCG / matches_by_query.size() : 0.0','sumNDCG / std::max<size_t>(matches_by_query.size() - 1, 1) : 0.0')
m('P14 zero groups',['P14'],A,'return matches_by_query.size() > 0 ? sumAP / matches_by_query.size() : 0.0','return matches_by_query.size() > 0 ? sumAP / matches_by_query.size() : 1.0')
m('P14 stat swap',['P14'],S,'''        matches, GlobalStatistic<Match>::collapse_matches_,
        interpolate_precision_, trapezoid_integral_);''','''        matches, GlobalStatistic<Match>::collapse_matches_,
        trapezoid_integral_, interpolate_precision_);''')
m('P14 ctor swap',['P14'],S,'''      : Statistic<Match>(collapse_matches),
        interpolate_precision_(interpolate_precision),
        trapezoid_integral_(trapezoid_integral) {}''','''      : Statistic<Match>(collapse_matches),
        interpolate_precision_(interpolate_precision),
        trapezoid_integral_(interpolate_precision) {}''')
m('P14 skip empty groups',['P14'],A,'''  for (auto matches_vector : matches_by_query) {
    if (sort_matches) { SortMatchesDecreasingScore(&matches_vector); }
    if (coll''','''  for (auto matches_vector : matches_by_query) {
    if (matches_vector.size() == 1 && !matches_vector[0].HasHyp()) continue;
    if (sort_matches) { SortMatchesDecreasingScore(&matches_vector); }
    if (coll''')
m('P14 sort cmp >=',['P14'],A,'return a.GetHyp().Score() > b.GetHyp().Score();','return a.GetHyp().Score() < b.GetHyp().Score();')
m('P14 sort nohyp',['P14'],A,'return a.HasHyp();','return b.HasHyp();')
m('P14 all but first',['P14'],A,'''  for (const auto &matches_vector : matches_by_query) {
    for (const auto &match : matches_vector) {
      all_matches.push_back(match);
    }
  }
  if (sort_matches) { SortMatchesDecreasingScore(&all_matches); }
  if''','''  for (const auto &matches_vector : matches_by_query) {
    if (&matches_vector != &matches_by_query.back() || matches_by_query.size() < 3)
    for (const auto &match : matches_vector) {
      all_matches.push_back(match);
    }
  }
  if (sort_matches) { SortMatchesDecreasingScore(&all_matches); }
  if''')
m('P14 drop collapse ndcg',['P14'],A,'''  if (collapse_matches) {
    return ComputeNDCG<double>(CollapseMatches(matches));
  } else {
    return ComputeNDCG<double>(GetMatchErrors(matches));
  }''','''  return ComputeNDCG<double>(GetMatchErrors(matches));''')
m('P14 quiet insert',['P14'],A,'''    for (const auto &match : matches_vector) {
      all_matches.push_back(match);
    }
  }
  if (sort_matches) { SortMatchesDecreasingScore(&all_matches); }
  if''','''    all_matches.insert(all_matches.end(), matches_vector.begin(), matches_vector.end());
  }
  if (sort_matches) { SortMatchesDecreasingScore(&all_matches); }
  if''',True)
m('P14 quiet call flat',['P14'],A,'''  if (sort_matches) { SortMatchesDecreasingScore(&all_matches); }
  // Compute precision and recall curves from the matches
  std::vector<double> pr, rc;
  ComputePrecisionAndRecall(
      all_matches, collapse_matches, interpolate_precision, &pr, &rc);
  return ComputeAP(pr, rc, trapezoid_integral);''','''  if (sort_matches) { SortMatchesDecreasingScore(&all_matches); }
  return ComputeGlobalAP(all_matches, collapse_matches, interpolate_precision, trapezoid_integral);''',True)
m('P14 quiet index loop',['P14'],A,'''  for (auto matches_vector : matches_by_query) {
    if (sort_matches) { SortMatchesDecreasingScore(&matches_vector); }
    if (coll''','''  for (size_t q = 0; q < matches_by_query.size(); ++q) {
    std::vector<Match> matches_vector(matches_by_query[q]);
    if (sort_matches) SortMatchesDecreasingScore(&matches_vector);
    if (coll''',True)
m('P14 quiet early',['P14'],A,'''  double sumNDCG = 0.0;
''','''  if (matches_by_query.empty()) return 0.0;
  double sumNDCG = 0.0;
''',True)
m('P14 quiet cmp',['P14'],A,'''              if (a.HasHyp() && b.HasHyp()) {
                return a.GetHyp().Score() > b.GetHyp().Score();
              } else {
                return a.HasHyp();
              }''','''              if (!a.HasHyp()) return false;
              return !b.HasHyp() || a.GetHyp().Score() > b.GetHyp().Score();''',True)
m('P16 off by one dist',['P16'],B,'mdist(0, num_matches_q - 1)','mdist(0, num_matches_q > 1 ? num_matches_q - 2 : 0)')
m('P16 group of i',['P16'],B,'const auto &m = original[q][mdist(rng_)];','const auto &m = original[num_matches_q == original[i].size() ? i : q][mdist(rng_)];')
m('P16 size i',['P16'],B,'const size_t num_matches_q = original[q].size();','const size_t num_matches_q = original[i].size();')
m('P16 noclear',['P16'],B,'''    sampled->clear();
    sampled->resize(num_queries);''','''    sampled->resize(num_queries);''')
m('P16 swap bounds',['P16'],B,'*upper_bound = observed_statistic - statistics_diffs[ui]','*upper_bound = observed_statistic + statistics_diffs[ui]')
m('P16 alpha',['P16'],B,'(      alpha * 0.5)','(      alpha * 0.25)')
m('P16 reps',['P16'],B,'r < repetitions','r + 1 < repetitions')
m('P16 li neg',['P16'],B,'statistics_diffs[li];','statistics_diffs[li > 0 ? li - 1 : 0];')
m('P16 accumulate sample',['P16'],B,'''  for (size_t r = 0; r < repetitions; ++r) {
    // Build bootstrapped sample
    Container bootstrapped_sample;''','''  Container bootstrapped_sample;
  for (size_t r = 0; r < repetitions; ++r) {
    // Build bootstrapped sample''',True)
m('P16 diff reversed',['P16'],B,'sample_statistic - observed_statistic','observed_statistic - sample_statistic')
m('P16 nosort',['P16'],B,'std::sort(statistics_diffs.begin(), statistics_diffs.end());','std::sort(statistics_diffs.begin(), statistics_diffs.end() - 1);')
m('P16 reuse dist',['P16'],B,'      for (size_t j = 0; j < num_matches_q; ++j) {\n        const','      for (size_t j = 0; j + 1 < num_matches_q || j < 1; ++j) {\n        const')
m('P16 quiet local',['P16'],B,'''      for (size_t j = 0; j < num_matches_q; ++j) {
        const auto &m = original[q][mdist(rng_)];
        (*sampled)[i].push_back(m);
      }''','''      auto &group = original[q];
      auto &dest = sampled->at(i);
      dest.reserve(num_matches_q);
      for (size_t j = num_matches_q; j > 0; --j) {
        dest.push_back(group[mdist(rng_)]);
      }''',True)
m('P16 quiet emplace',['P16'],B,'''    sampled->clear();
    sampled->resize(num_queries);''','''    sampled->clear();
    sampled->reserve(num_queries);''',True)
L[-1]['edits']=[dict(zip(('file','old','new'),e)) for e in [(L[-1]['file'],L[-1]['old'],L[-1]['new']),(B,'''      const size_t q = qdist(rng_);''','''      sampled->emplace_back();
      const size_t q = qdist(rng_);''')]]
json.dump(L,open('/verif/dev/m3.json','w'),indent=0)
