#include "assess.h"
using namespace kws::core;
template <class T> float score(const T& m) {
  if (m.HasHyp()) return m.GetHyp().Score();
  return -std::numeric_limits<float>::infinity();
}
template <class T> Cs collapse(const std::vector<T>& ms) {
  std::vector<std::pair<MEC, float>> runs;
  for (size_t i = 0; i < ms.size(); ++i) {
    const float s = score(ms[i]);
    const ME& e = ms[i].GetError();
    if (runs.empty() || runs.back().second != s) {
      runs.push_back(std::make_pair(MEC(e), s));
    } else {
      MEC& b = runs.back().first;
      b = MEC(b.FP() + e.FP(), b.FN() + e.FN(), b.NH() + e.NH(), b.NR() + e.NR());
    }
  }
  Cs out;
  for (size_t i = 0; i < runs.size(); ++i) out.push_back(runs[i].first);
  return out;
}
PAIR(collapse_box, Cs, (const Ms& m), return CollapseMatches(m), return collapse(m))
PAIR(collapse_int, Cs, (const IMs& m), return CollapseMatches(m), return collapse(m))
PAIR(errors_box, Es, (const Ms& m), return GetMatchErrors(m), Es o; for (size_t i = 0; i < m.size(); ++i) o.push_back(m[i].GetError()); return o)
PAIR(errors_int, Es, (const IMs& m), return GetMatchErrors(m), Es o; for (size_t i = 0; i < m.size(); ++i) o.push_back(m[i].GetError()); return o)
