// P04: the event index holds what was inserted and not removed, counts it and
// finds the overlapping events.
#include "common.h"
// the states reached by a history are spoken of through the members
#define private public
#define protected public
#include "core/EventSet.h"
#include "core/DocumentBoundingBoxEventSet.h"
#undef private
#undef protected
using namespace kws::core;
typedef EventSet<Ev> Index;                 // spatial
typedef EventSet<IEv> Plain;
typedef EventSet<TEv> Text;
typedef Index::EventList EvList;
typedef Plain::EventList IEvList;
typedef Text::EventList TEvList;
typedef std::vector<Ev> Evs;
typedef std::vector<IEv> IEvs;
typedef std::unordered_map<std::string, std::set<Ev>> DocMap;
typedef std::unordered_map<std::string, DocMap> QueryMap;
template class kws::core::EventSet<Ev>;
template class kws::core::EventSet<IEv>;
template class kws::core::EventSet<TEv>;

// ---- one operation after an arbitrary history
static void Put(Index *s, const Ev &e) {
  std::set<Ev> &held = s->documents_by_query_[e.Query()][e.Location().document];
  if (held.count(e) == 0) {
    held.insert(e);
    s->size_ = s->size_ + 1;
  }
}
static void Take(Index *s, const Ev &e) {
  if (s->documents_by_query_.count(e.Query()) == 0) return;
  if (s->documents_by_query_[e.Query()].count(e.Location().document) == 0) return;
  std::set<Ev> &held = s->documents_by_query_[e.Query()][e.Location().document];
  if (held.count(e)) {
    held.erase(e);
    --s->size_;
  }
}
typedef std::pair<uint32_t, Ev> Found;
static EvList Overlapping(const Index *s, const Ev &e) {
  std::vector<Found> found;
  if (s->documents_by_query_.count(e.Query()) && s->documents_by_query_.at(e.Query()).count(e.Location().document)) {
    for (const Ev &h : s->documents_by_query_.at(e.Query()).at(e.Location().document)) {
      const uint32_t area = h.Location().IntersectionArea(e.Location());
      if (area > 0) found.push_back(Found(area, h));
    }
  }
  std::sort(found.begin(), found.end(), std::greater<Found>());
  EvList r;
  for (size_t i = 0; i < found.size(); ++i) r.push_back(found[i].second);
  return r;
}
PAIR(insert, void, (Index * s, const Ev &e), s->Insert(e), Put(s, e))
// (a table left without events may stay or go: no query sees it)
template <class I, class E> static void Prune(I *s, const E &e) {
  auto q = s->documents_by_query_.find(e.Query());
  if (q == s->documents_by_query_.end()) return;
  auto d = q->second.find(e.Location().document);
  if (d != q->second.end() && d->second.empty()) q->second.erase(d);
  if (q->second.empty()) s->documents_by_query_.erase(q);
}
PAIR(remove, void, (Index * s, const Ev &e), s->Remove(e); Prune(s, e), Take(s, e); Prune(s, e))
// (an index without events keeps no tables: adding one is what makes them)
PAIR(clear, void, (Index * s), if (s->size_ == 0) s->documents_by_query_.clear(); s->Clear(),
     if (s->size_ == 0) s->documents_by_query_.clear(); s->documents_by_query_ = QueryMap(); s->size_ = 0)
PAIR(size, size_t, (const Index *s), return s->Size(), return s->size_)
PAIR(find, void, (const Index *s, const Ev &e, EvList *out), *out = s->FindOverlapping(e), *out = Overlapping(s, e))

PAIR(plain_insert, void, (Plain * s, const IEv &e), s->Insert(e), s->event_set_.insert(e))
PAIR(plain_remove, void, (Plain * s, const IEv &e), s->Remove(e), if (s->event_set_.count(e)) s->event_set_.erase(e))
PAIR(plain_clear, void, (Plain * s), s->Clear(), s->event_set_ = std::set<IEv>())
PAIR(plain_size, size_t, (const Plain *s), return s->Size(), return s->event_set_.size())
PAIR(plain_find, void, (const Plain *s, const IEv &e, IEvList *out), *out = s->FindOverlapping(e),
     IEvList r; if (s->event_set_.count(e)) r.push_back(e); *out = r)
PAIR(text_insert, void, (Text * s, const TEv &e), s->Insert(e), s->event_set_.insert(e))
PAIR(text_remove, void, (Text * s, const TEv &e), s->Remove(e), if (s->event_set_.count(e)) s->event_set_.erase(e))
PAIR(text_find, void, (const Text *s, const TEv &e, TEvList *out), *out = s->FindOverlapping(e),
     TEvList r; if (s->event_set_.count(e)) r.push_back(e); *out = r)

// ---- however it is constructed
PAIR(empty, void, (size_t * n, const Ev &e, EvList *out), Index s; *n = s.Size(); *out = s.FindOverlapping(e), *n = 0; *out = EvList())
PAIR(plain_empty, void, (size_t * n, const IEv &e, IEvList *out), Plain s; *n = s.Size(); *out = s.FindOverlapping(e), *n = 0; *out = IEvList())
PAIR(range_empty, size_t, (const Evs &v), Index s(v.begin(), v.begin()); return s.Size(), return 0)
PAIR(range, void, (const Evs &v, size_t *n, const Ev &e, EvList *out),
     Index s(v.begin(), v.end()); *n = s.Size(); *out = s.FindOverlapping(e),
     Index s; for (const Ev &x : v) s.Insert(x); *n = s.Size(); *out = s.FindOverlapping(e))
PAIR(plain_range, void, (const IEvs &v, size_t *n, const IEv &e, IEvList *out),
     Plain s(v.begin(), v.end()); *n = s.Size(); *out = s.FindOverlapping(e),
     Plain s; for (const IEv &x : v) s.Insert(x); *n = s.Size(); *out = s.FindOverlapping(e))

// ---- short histories, seen from outside only
static size_t Distinct(const Ev &a, const Ev &b) { return a == b ? 1 : 2; }
PAIR(h_size, size_t, (const Ev &a, const Ev &b), Index s; s.Insert(a); s.Insert(b); return s.Size(), return Distinct(a, b))
PAIR(h_twice, size_t, (const Ev &a), Index s; s.Insert(a); s.Insert(a); s.Remove(a); s.Remove(a); return s.Size(), return 0)
PAIR(h_clear, size_t, (const Ev &a, const Ev &b), Index s; s.Insert(a); s.Clear(); s.Insert(b); return s.Size(), return 1)
PAIR(h_absent, size_t, (const Ev &a, const Ev &b), Index s; s.Insert(a); s.Remove(b); return s.Size(), return a == b ? 0 : 1)
PAIR(h_find, void, (const Ev &a, const Ev &e, EvList *out), Index s; s.Insert(a); *out = s.FindOverlapping(e),
     EvList r; if (a.Query() == e.Query() && a.Location().document == e.Location().document && a.Location().IntersectionArea(e.Location()) > 0)
     r.push_back(a); *out = r)
PAIR(h_find_cleared, void, (const Ev &a, const Ev &e, EvList *out), Index s; s.Insert(a); s.Clear(); *out = s.FindOverlapping(e), *out = EvList())
PAIR(h_plain, size_t, (const IEv &a, const IEv &b), Plain s; s.Insert(a); s.Insert(b); s.Insert(a); return s.Size(), return a == b ? 1 : 2)
PAIR(h_plain_absent, size_t, (const IEv &a, const IEv &b), Plain s; s.Insert(a); s.Remove(b); return s.Size(), return a == b ? 0 : 1)
