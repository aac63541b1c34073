// An index and a scorer of which nothing is known: what a query of the index
// returns is some function of what was inserted since it was last cleared, and
// the error of a pair is some function of the pair.
#ifndef VERIF_INDEX_H_
#define VERIF_INDEX_H_
#include "match.h"
#include "scorer/Scorer.h"
struct Loc {
  int id;
  bool operator==(const Loc &o) const { return id == o.id; }
  bool operator!=(const Loc &o) const { return id != o.id; }
  bool operator<(const Loc &o) const { return id < o.id; }
  bool operator>(const Loc &o) const { return id > o.id; }
};
typedef kws::core::Event<int, Loc> RefEv;
typedef kws::core::ScoredEvent<RefEv> HypEv;
typedef std::vector<RefEv> Refs;
typedef std::vector<HypEv> Hyps;
typedef std::list<RefEv> RefList;
namespace verif { RefList Overlap(const Refs &held, const RefEv &e); }   // any function
using verif::Overlap;
namespace kws {
namespace core {
template <class E> class EventSet;
template <> class EventSet<RefEv> {
 public:
  typedef RefEv EventType;
  typedef RefList EventList;
  EventSet() {}
  virtual ~EventSet() {}
  template <typename I> EventSet(I begin, I end) { for (I it = begin; it != end; ++it) Insert(*it); }
  virtual void Insert(const RefEv &e) { held.push_back(e); }
  virtual void Clear() { held.clear(); }
  virtual EventList FindOverlapping(const RefEv &e) const { return Overlap(held, e); }
  virtual size_t Size() const { return held.size(); }
  Refs held;
};
}
}
#define private public
#define protected public
#include "matcher/SimpleMatcher.h"
#undef private
#undef protected
typedef kws::scorer::Scorer<RefEv, HypEv> Sc;
typedef kws::matcher::SimpleMatcher<RefEv, HypEv> Mx;
typedef kws::matcher::Matcher<RefEv, HypEv> MxBase;
typedef kws::core::Match<RefEv, HypEv> Pair;
typedef std::vector<Pair> Pairs;
typedef kws::core::EventSet<RefEv> Ix;
template class kws::matcher::SimpleMatcher<RefEv, HypEv>;

// What the property demands of one run.
static void Expected(Sc *scorer, const Refs &refs, const Hyps &hyps, Pairs *result, Pairs *repeated) {
  std::set<RefEv> open(refs.begin(), refs.end());
  Pairs out, again;
  for (size_t i = 0; i < hyps.size(); ++i) {
    const HypEv &h = hyps[i];
    bool accepted = false;
    for (const RefEv &r : Overlap(refs, h)) {
      const ME err = (*scorer)(r, h);
      if (!(err.FP() < 1)) continue;
      accepted = true;
      if (open.count(r) > 0) {
        open.erase(r);
        out.push_back(Pair(r, h, err));
        break;
      }
      again.push_back(Pair(r, h, err));
    }
    if (!accepted) out.push_back(Pair::MakeFalsePositive(h));
  }
  for (const RefEv &r : open) out.push_back(Pair::MakeFalseNegative(r));
  *result = out;
  *repeated = again;
}
#endif
