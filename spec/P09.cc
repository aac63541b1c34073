#include "assess.h"
using namespace kws::core;
template <class C> size_t total(const C& es) {
  size_t t = 0;
  for (size_t i = 0; i < es.size(); ++i) t += es[i].NR();
  return t;
}
template <class R, class C> void curve(const C& es, bool interpolate, std::vector<R>* pr, std::vector<R>* rc) {
  pr->clear();
  rc->clear();
  const size_t tr = total(es);
  R fp = 0, fn = 0;
  size_t nh = 0, nr = 0;
  for (size_t i = 0; i < es.size(); ++i) {
    fp += es[i].FP();
    fn += es[i].FN();
    nh += es[i].NH();
    nr += es[i].NR();
    if (nh == 0) pr->push_back(1); else pr->push_back(1 - fp / nh);
    if (tr == 0) rc->push_back(1); else rc->push_back((nr - fn) / tr);
  }
  if (!interpolate) return;
  for (size_t i = es.size(); i > 1; --i)
    if ((*pr)[i - 1] > (*pr)[i - 2]) (*pr)[i - 2] = (*pr)[i - 1];
}
PAIR(total_errors, size_t, (const Es& e), return NumTotalReferences(e), return total(e))
PAIR(total_counts, size_t, (const Cs& e), return NumTotalReferences(e), return total(e))
PAIR(raw_errors, void, (const Es& e, Ds* p, Ds* r), ComputePrecisionAndRecall(e, false, p, r), curve(e, false, p, r))
PAIR(raw_counts, void, (const Cs& e, Ds* p, Ds* r), ComputePrecisionAndRecall(e, false, p, r), curve(e, false, p, r))
PAIR(curve_errors, void, (const Es& e, bool i, Ds* p, Ds* r), ComputePrecisionAndRecall(e, i, p, r), curve(e, i, p, r))
PAIR(curve_counts, void, (const Cs& e, bool i, Ds* p, Ds* r), ComputePrecisionAndRecall(e, i, p, r), curve(e, i, p, r))
PAIR(curve_errors_float, void, (const Es& e, bool i, Fs* p, Fs* r), ComputePrecisionAndRecall(e, i, p, r), curve(e, i, p, r))
// from matches: the errors of the matches, collapsed when asked to
PAIR(matches_plain, void, (const Ms& m, bool i, Ds* p, Ds* r), ComputePrecisionAndRecall(m, false, i, p, r),
     Es e; for (size_t k = 0; k < m.size(); ++k) e.push_back(m[k].GetError()); ComputePrecisionAndRecall(e, i, p, r))
PAIR(matches_collapsed, void, (const Ms& m, bool i, Ds* p, Ds* r), ComputePrecisionAndRecall(m, true, i, p, r),
     Cs e = CollapseMatches(m); ComputePrecisionAndRecall(e, i, p, r))
