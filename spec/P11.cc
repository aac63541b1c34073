#include "assess.h"
using namespace kws::core;
template <class R, class C> R ap_errors(const C& es, const std::vector<R>& pr, bool trap) {
  size_t tr = 0;
  for (size_t i = 0; i < es.size(); ++i) tr += es[i].NR();
  if (tr == 0) return 0;
  R s = 0;
  for (size_t i = 0; i < pr.size(); ++i) {
    R p = pr[i];
    if (trap && i >= 1) p = (pr[i - 1] + pr[i]) / 2;
    s += p * (es[i].NH() - es[i].FP());
  }
  return s / tr;
}
template <class R> R ap_curve(const std::vector<R>& pr, const std::vector<R>& rc, bool trap) {
  R s = 0;
  for (size_t i = 0; i < pr.size(); ++i) {
    R p = pr[i];
    if (trap && i >= 1) p = (pr[i - 1] + pr[i]) / 2;
    R d = rc[i];
    if (i >= 1) d = rc[i] - rc[i - 1];
    s += p * d;
  }
  return s;
}
PAIR(errors, double, (const Es& e, const Ds& pr), return ComputeAP(e, pr, false), if (pr.size() != e.size()) abort(); return ap_errors(e, pr, false))
PAIR(errors_trap, double, (const Es& e, const Ds& pr), return ComputeAP(e, pr, true), if (pr.size() != e.size()) abort(); return ap_errors(e, pr, true))
PAIR(counts, double, (const Cs& e, const Ds& pr), return ComputeAP(e, pr, false), if (pr.size() != e.size()) abort(); return ap_errors(e, pr, false))
PAIR(counts_trap, double, (const Cs& e, const Ds& pr), return ComputeAP(e, pr, true), if (pr.size() != e.size()) abort(); return ap_errors(e, pr, true))
PAIR(curve, double, (const Ds& pr, const Ds& rc), return ComputeAP(pr, rc, false), if (pr.size() != rc.size()) abort(); return ap_curve(pr, rc, false))
PAIR(curve_trap, double, (const Ds& pr, const Ds& rc), return ComputeAP(pr, rc, true), if (pr.size() != rc.size()) abort(); return ap_curve(pr, rc, true))
PAIR(curve_float, float, (const Fs& pr, const Fs& rc, bool t), return ComputeAP(pr, rc, t), if (pr.size() != rc.size()) abort(); return ap_curve(pr, rc, t))
