import json
L=[]
A='core/Assessment.h'; B='core/Bootstrapping.h'; G='tools/GenericKwsEvalTool.h'
def m(name,old,new,expect='caught',f=A): L.append(dict(name=name,file=f,old=old,new=new,props=['P25'],expect=expect))
m('s pr interp size0','if (interpolate && errors.size() > 1)','if (interpolate)')
m('s pr interp down','for (size_t i = errors.size() - 1; i > 0; --i) {\n      pr->at(i - 1) = std::max(pr->at(i - 1), pr->at(i));','for (size_t i = errors.size() - 1; i < errors.size(); --i) {\n      pr->at(i - 1) = std::max(pr->at(i - 1), pr->at(i));')
m('s nh zero','sumNH > 0 ? 1.0 - sumFP / sumNH : 1.0','sumNR > 0 ? 1.0 - sumFP / sumNH : 1.0')
m('s tr zero','const Real r = TR > 0 ? (sumNR - sumFN) / TR : 1.0;','const Real r = (sumNR - sumFN) / TR;')
m('s ap tr','return TR > 0 ? sumAP / TR : 0.0f;','return sumAP / TR;')
m('s ap i>0','const Real tp = (errors[i].NH() - errors[i].FP());\n    sumAP += tp * (trapezoid && i > 0 ?','const Real tp = (errors[i].NH() - errors[i].FP());\n    sumAP += tp * (trapezoid ?')
m('s ap curve i0','for (size_t i = 1; i < pr.size(); ++i) {\n    AP2 +=','for (size_t i = 0; i < pr.size(); ++i) {\n    AP2 +=')
m('s ap curve <=','for (size_t i = 0; i < pr.size(); ++i) {\n    AP1 +=','for (size_t i = 0; i <= pr.size(); ++i) {\n    AP1 +=')
m('s ap last','return AP1 - AP2;','return AP1 - AP2 + 0 * pr[pr.size() - 1];')
m('s ap last ok','return AP1 - AP2;','return AP1 - AP2 + (pr.empty() ? 0 : 0 * pr[pr.size() - 1]);','quiet')
m('s ap front','Real AP1 = 0.0;','Real AP1 = 0.0 * rc.front();')
m('s ndcg tr','if (TR > 0) {\n    // Compute unnorm','if (errors.size() > 0) {\n    // Compute unnorm')
m('s ndcg nh','if (it->NH() > 0) {\n        const Real r = 1 - it->FP() / it->NH();','{\n        const Real r = 1 - it->FP() / it->NH();')
m('s ndcg log','(exp2(r) - 1) / log2(i + 1)','(exp2(r) - 1) / log2(i)')
m('s ndcg z','for (size_t j = 1; j <= TR; ++j) {\n      z += 1 / log2(j + 1);','for (size_t j = 1; j <= TR; ++j) {\n      z += 1 / log2(j);')
m('s collapse back','if (collapsed_matches.size() == 0 ||\n        score','if (score')
m('s collapse back2','if (collapsed_matches.size() == 0 ||\n        score','if (collapsed_matches.size() == 1 ||\n        score')
m('s hyp null','const float score = m.HasHyp()\n','const float score = !m.HasRef()\n','any')
m('s mean ap div','return matches_by_query.size() > 0 ? sumAP / matches_by_query.size() : 0.0;','return sumAP / matches_by_query.size();')
m('s mean ndcg div','return matches_by_query.size() > 0 ? sumNDCG / matches_by_query.size() : 0.0;','return sumNDCG / matches_by_query.size();')
m('s mean ndcg front','double sumNDCG = 0.0;','double sumNDCG = 0.0 * matches_by_query.front().size();')
m('s mean skip','for (auto matches_vector : matches_by_query) {\n    if (sort_matches) { SortMatchesDecreasingScore(&matches_vector); }\n    if (coll','size_t n = 0; for (const auto &v : matches_by_query) if (!v.empty()) n++;\n  sumNDCG /= n;\n  for (auto matches_vector : matches_by_query) {\n    if (sort_matches) { SortMatchesDecreasingScore(&matches_vector); }\n    if (coll')
m('s sample end','if (j == src_x.size()) {','if (j > src_x.size()) {')
m('s sample j0','!linear_interpolation || j == 0','!linear_interpolation')
m('s sample scan','for (; j < src_x.size() && src_x[j] < dst_x[i]; ++j) {}','for (; src_x[j] < dst_x[i]; ++j) {}')
m('s sample scan2','for (; j < src_x.size() && src_x[j] < dst_x[i]; ++j) {}','for (; j < src_x.size() && src_x[j + 1] < dst_x[i]; ++j) {}')
m('s sample y','dst_y->push_back(src_y[j]);\n    } else','dst_y->push_back(src_y[j + 1]);\n    } else')
m('s points 1','if (num_points > 1) {','if (num_points > 0) {')
m('s points 1b','static_cast<Real>(k) / (num_points - 1)','static_cast<Real>(k) / (num_points - 2)')
m('s write','for (size_t i = 0; i < x.size(); ++i) {\n    fs','for (size_t i = 0; i <= x.size(); ++i) {\n    fs')
m('s write sizes','if (x.size() != y.size()) {','if (x.size() < y.size()) {')
m('s group','(*matches_by_group)[','(*matches_by_group)[1 + ','any')
m('s boot last','const size_t last = statistics_diffs.size() - 1;','const size_t last = statistics_diffs.size();',f=B)
m('s boot min','const auto li = std::min((size_t)((1.0 - alpha * 0.5) * repetitions), last);','const auto li = (size_t)((1.0 - alpha * 0.5) * repetitions);',f=B)
m('s boot empty','if (statistics_diffs.empty()) {','if (statistics_diffs.size() == 1) {',f=B)
m('s boot draw','std::uniform_int_distribution <size_t> mdist(0, num_matches_q - 1);\n','std::uniform_int_distribution <size_t> mdist(0, num_matches_q);\n',f=B)
m('s boot draw1','std::uniform_int_distribution <size_t> mdist(0, num_matches - 1);\n','std::uniform_int_distribution <size_t> mdist(0, num_matches);\n',f=B)
m('s boot resize','sampled->resize(num_queries);','sampled->reserve(num_queries);',f=B)
m('s boot other','const auto &m = original[q][mdist(rng_)];','const auto &m = original[i][mdist(rng_)];',f=B)
m('s boot one draw','      const size_t num_matches_q = original[q].size();','      const size_t num_matches_q = original[0].size();',f=B)
m('s curve NQ','sampled_pr[0].push_back(NQ > 0 ? s / NQ : 0.0);','sampled_pr[0].push_back(s / NQ);',f=G)
m('s curve q','for (size_t q = 1; q <= NQ; ++q) {','for (size_t q = 1; q <= NQ + 1; ++q) {',f=G)
m('s curve i','for (size_t i = 0; i < sampled_rc.size(); ++i) {','for (size_t i = 0; i < num_points; ++i) {',f=G)
m('s curve noem','sampled_pr.emplace_back();\n      core','core',f=G)
m('s curve swap args','rc, pr, sampled_rc, &sampled_pr.back()','sampled_rc, pr, rc, &sampled_pr.back()',f=G)
# quiet
m('sq interp while','for (size_t i = errors.size() - 1; i > 0; --i) {\n      pr->at(i - 1) = std::max(pr->at(i - 1), pr->at(i));','for (size_t i = errors.size(); i-- > 1;) {\n      pr->at(i - 1) = std::max(pr->at(i - 1), pr->at(i));','quiet')
m('sq sample while','for (; j < src_x.size() && src_x[j] < dst_x[i]; ++j) {}','while (j != src_x.size() && src_x[j] < dst_x[i]) j++;','quiet')
m('sq sample iters','for (size_t i = 0, j = 0; i < dst_x.size(); ++i) {','size_t j = 0;\n  for (size_t i = 0; i != dst_x.size(); i++) {','quiet')
m('sq mean early','double sumNDCG = 0.0;','if (matches_by_query.empty()) return 0.0;\n  double sumNDCG = 0.0;','quiet')
m('sq mean early2','return matches_by_query.size() > 0 ? sumAP / matches_by_query.size() : 0.0;','if (matches_by_query.empty()) return 0.0;\n  const double n = matches_by_query.size();\n  return sumAP / n;','quiet')
m('sq boot clamp','const auto li = std::min((size_t)((1.0 - alpha * 0.5) * repetitions), last);','size_t li = (size_t)((1.0 - alpha * 0.5) * repetitions);\n  if (li > last) li = last;','quiet',f=B)
m('sq boot back','(*sampled)[i].push_back(m);','sampled->at(i).push_back(m);','quiet',f=B)
m('sq boot back2','    sampled->resize(num_queries);\n    for (size_t i = 0; i < num_queries; ++i) {','    for (size_t i = 0; i < num_queries; ++i) {\n      sampled->emplace_back();','quiet',f=B)
m('sq curve ref','for (size_t q = 1; q <= NQ; ++q) {\n        s += sampled_pr[q][i];','for (size_t q = 0; q < NQ; ++q) {\n        s += sampled_pr[q + 1][i];','quiet',f=G)
m('sq curve size','for (size_t q = 1; q <= NQ; ++q) {\n        s += sampled_pr[q][i];','for (size_t q = 1; q < sampled_pr.size(); ++q) {\n        s += sampled_pr[q][i];','quiet',f=G)
m('sq ndcg range','for (auto it = errors.begin(); it != errors.end(); ++it) {\n      if (it->NH() > 0) {\n        const Real r = 1 - it->FP() / it->NH();\n        for (size_t j = 0; j < it->NH()','for (const auto &e : errors) {\n      if (e.NH() > 0) {\n        const Real r = 1 - e.FP() / e.NH();\n        for (size_t j = 0; j < e.NH()','quiet')
m('sq ndcg continue','if (it->NH() > 0) {\n        const Real r','if (it->NH() == 0) continue;\n      {\n        const Real r','quiet')
m('sq collapse empty','if (collapsed_matches.size() == 0 ||\n        score','if (collapsed_matches.empty() ||\n        score','quiet')
m('sq collapse last','float score = m.HasHyp()','float score = m.HasHyp()','quiet')
m('sq ap cached','for (size_t i = 0; i < pr.size(); ++i) {\n    AP1 +=','const size_t n = pr.size();\n  for (size_t i = 0; i < n; ++i) {\n    AP1 +=','quiet')
m('sq points','if (num_points > 1) {\n    for','if (num_points < 2) return;\n  {\n    for','quiet')
json.dump(L,open('/verif/dev/m10.json','w'),indent=0)
