// P28: the printed form of errors and matches says what they hold.
#include "match.h"
using namespace kws::core;
template class kws::core::Match<Ev, SEv>;
template class kws::core::Match<IEv, ISEv>;
template class kws::core::Match<TEv, TSEv>;
static void Numbers(std::ostream &os, float fp, float fn, size_t nh, size_t nr) {
  os << "fp=" << fp;
  os << ", fn=" << fn;
  os << ", nh=" << nh;
  os << ", nr=" << nr << "]";
}
static void OutError(std::ostream &os, const ME &e) { os << "MatchError["; Numbers(os, e.FP(), e.FN(), e.NH(), e.NR()); }
static void OutCounts(std::ostream &os, const MEC &e) { os << "MatchErrorCounts["; Numbers(os, e.FP(), e.FN(), e.NH(), e.NR()); }
static void OutLocation(std::ostream &os, const DBu &b) { os << b.document << " " << b.x << " " << b.y << " " << b.w << " " << b.h; }
template <class L> void OutLocation(std::ostream &os, const L &l) { os << l; }
template <class E> void OutEvent(std::ostream &os, const E &e) { os << e.Query() << " "; OutLocation(os, e.Location()); }
template <class T> void OutMatch(std::ostream &os, const T &m) {
  os << "Match[";
  if (m.HasHyp()) {
    os << "Hyp=";
    OutEvent(os, m.GetHyp());
    os << " " << m.GetHyp().Score() << ", ";
  }
  if (m.HasRef()) {
    os << "Ref=";
    OutEvent(os, m.GetRef());
    os << ", ";
  }
  os << "Error=";
  OutError(os, m.GetError());
  os << "]";
}
PAIR(error, void, (std::ostream &os, const ME &e), os << e, OutError(os, e))
PAIR(counts, void, (std::ostream &os, const MEC &e), os << e, OutCounts(os, e))
PAIR(match, void, (std::ostream &os, const M &m), os << m, OutMatch(os, m))
PAIR(match_int, void, (std::ostream &os, const IM &m), os << m, OutMatch(os, m))
PAIR(match_text, void, (std::ostream &os, const TM &m), os << m, OutMatch(os, m))
// several on one stream, as in the list of matches the tools write
PAIR(list, void, (std::ostream &os, const std::vector<M> &l), for (const M &m : l) os << m << '\n',
     for (size_t i = 0; i < l.size(); ++i) { OutMatch(os, l[i]); os << '\n'; })
PAIR(made_hit, void, (std::ostream &os, const Ev &r, const SEv &h, const ME &e), os << M(r, h, e),
     os << "Match[Hyp="; OutEvent(os, h); os << " " << h.Score() << ", Ref="; OutEvent(os, r); os << ", Error="; OutError(os, e); os << "]")
PAIR(made_alarm, void, (std::ostream &os, const SEv &h), os << M::MakeFalsePositive(h),
     os << "Match[Hyp="; OutEvent(os, h); os << " " << h.Score() << ", Error="; Numbers(os << "MatchError[", 1, 0, 1, 0); os << "]")
PAIR(made_miss, void, (std::ostream &os, const Ev &r), os << M::MakeFalseNegative(r),
     os << "Match[Ref="; OutEvent(os, r); os << ", Error="; Numbers(os << "MatchError[", 0, 1, 0, 1); os << "]")
