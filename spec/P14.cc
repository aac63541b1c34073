// P14: global and mean measures over all matches of all groups.
#include "assess.h"
#include "core/Statistic.h"
using namespace kws::core;
typedef std::vector<Ms> Gs;
typedef std::vector<IMs> IGs;
template class kws::core::GlobalAP<M>;
template class kws::core::MeanAP<M>;
template class kws::core::GlobalNDCG<M>;
template class kws::core::MeanNDCG<M>;
template class kws::core::GlobalAP<IM>;
template class kws::core::MeanAP<IM>;
template class kws::core::GlobalNDCG<IM>;
template class kws::core::MeanNDCG<IM>;

// the measures of one list, made of the parts P09 to P12 are about
template <class C> double ListAP(const C &ms, bool collapse, bool interpolate, bool trapezoid) {
  Ds p, r;
  ComputePrecisionAndRecall(ms, collapse, interpolate, &p, &r);
  return ComputeAP(p, r, trapezoid);
}
template <class C> double ListNDCG(const C &ms, bool collapse) {
  if (collapse) return ComputeNDCG<double>(CollapseMatches(ms));
  return ComputeNDCG<double>(GetMatchErrors(ms));
}
template <class C> C Together(const std::vector<C> &gs, bool sort) {
  C all;
  for (size_t g = 0; g < gs.size(); ++g)
    for (size_t i = 0; i < gs[g].size(); ++i) all.push_back(gs[g][i]);
  if (sort) SortMatchesDecreasingScore(&all);
  return all;
}
template <class C> C Ordered(const C &g, bool sort) {
  C c = g;
  if (sort) SortMatchesDecreasingScore(&c);
  return c;
}
template <class C> double MeanOfAP(const std::vector<C> &gs, bool c, bool i, bool t, bool s) {
  if (gs.empty()) return 0;
  double sum = 0;
  for (size_t g = 0; g < gs.size(); ++g) sum += ListAP(Ordered(gs[g], s), c, i, t);
  return sum / gs.size();
}
template <class C> double MeanOfNDCG(const std::vector<C> &gs, bool c, bool s) {
  if (gs.empty()) return 0;
  double sum = 0;
  for (size_t g = 0; g < gs.size(); ++g) sum += ListNDCG(Ordered(gs[g], s), c);
  return sum / gs.size();
}
// decreasing score, hypotheses before bare references
template <class T> bool Before(const T &a, const T &b) {
  if (!a.HasHyp()) return false;
  if (!b.HasHyp()) return true;
  return b.GetHyp().Score() < a.GetHyp().Score();
}
#define ALL(N, T_, C_, G_)                                                                                            \
  PAIR(sort##N, void, (C_ * m), SortMatchesDecreasingScore(m), std::sort(m->begin(), m->end(), Before<T_>))           \
  PAIR(gap##N, double, (const C_ &m, bool c, bool i, bool t), return ComputeGlobalAP(m, c, i, t), return ListAP(m, c, i, t)) \
  PAIR(gap_groups##N, double, (const G_ &g, bool c, bool i, bool t, bool s), return ComputeGlobalAP(g, c, i, t, s),   \
       return ListAP(Together(g, s), c, i, t))                                                                        \
  PAIR(map##N, double, (const G_ &g, bool c, bool i, bool t, bool s), return ComputeMeanAP(g, c, i, t, s),            \
       return MeanOfAP(g, c, i, t, s))                                                                                \
  PAIR(gndcg##N, double, (const C_ &m, bool c), return ComputeGlobalNDCG(m, c), return ListNDCG(m, c))                \
  PAIR(gndcg_groups##N, double, (const G_ &g, bool c, bool s), return ComputeGlobalNDCG(g, c, s),                     \
       return ListNDCG(Together(g, s), c))                                                                            \
  PAIR(mndcg##N, double, (const G_ &g, bool c, bool s), return ComputeMeanNDCG(g, c, s), return MeanOfNDCG(g, c, s))  \
  PAIR(stat_gap##N, double, (const C_ &m, bool c, bool i, bool t), return GlobalAP<T_>(c, i, t)(m), return ListAP(m, c, i, t)) \
  PAIR(stat_gap_groups##N, double, (const G_ &g, bool c, bool i, bool t, bool s), return GlobalAP<T_>(c, i, t)(g, s), \
       return ListAP(Together(g, s), c, i, t))                                                                        \
  PAIR(stat_map##N, double, (const G_ &g, bool c, bool i, bool t, bool s), return MeanAP<T_>(c, i, t)(g, s),          \
       return MeanOfAP(g, c, i, t, s))                                                                                \
  PAIR(stat_gndcg##N, double, (const C_ &m, bool c), return GlobalNDCG<T_>(c)(m), return ListNDCG(m, c))              \
  PAIR(stat_gndcg_groups##N, double, (const G_ &g, bool c, bool s), return GlobalNDCG<T_>(c)(g, s),                   \
       return ListNDCG(Together(g, s), c))                                                                            \
  PAIR(stat_mndcg##N, double, (const G_ &g, bool c, bool s), return MeanNDCG<T_>(c)(g, s), return MeanOfNDCG(g, c, s))
ALL(_box, M, Ms, Gs)
ALL(_int, IM, IMs, IGs)
