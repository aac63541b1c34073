// P04, other queries and coordinates: the same statements for every kind of
// event the index can hold.
#include "common.h"
// the states reached by a history are spoken of through the members
#define private public
#define protected public
#include "core/EventSet.h"
#include "core/DocumentBoundingBoxEventSet.h"
#undef private
#undef protected
using namespace kws::core;

template <class E>
struct Ref {
  typedef EventSet<E> Index;
  typedef typename E::LType::Type Area;
  typedef std::pair<Area, E> Found;
  typedef std::list<E> List;
  static void Put(Index *s, const E &e) {
    std::set<E> &held = s->documents_by_query_[e.Query()][e.Location().document];
    if (held.count(e) == 0) {
      held.insert(e);
      s->size_ = s->size_ + 1;
    }
  }
  static void Take(Index *s, const E &e) {
    if (s->documents_by_query_.count(e.Query()) == 0) return;
    if (s->documents_by_query_[e.Query()].count(e.Location().document) == 0) return;
    std::set<E> &held = s->documents_by_query_[e.Query()][e.Location().document];
    if (held.count(e)) {
      held.erase(e);
      --s->size_;
    }
  }
  static List Overlapping(const Index *s, const E &e) {
    std::vector<Found> found;
    if (s->documents_by_query_.count(e.Query()) && s->documents_by_query_.at(e.Query()).count(e.Location().document)) {
      for (const E &h : s->documents_by_query_.at(e.Query()).at(e.Location().document)) {
        const Area area = h.Location().IntersectionArea(e.Location());
        if (area > 0) found.push_back(Found(area, h));
      }
    }
    std::sort(found.begin(), found.end(), std::greater<Found>());
    List r;
    for (size_t i = 0; i < found.size(); ++i) r.push_back(found[i].second);
    return r;
  }
};

// (a table left without events may stay or go: no query sees it)
template <class I, class E> static void Prune(I *s, const E &e) {
  auto q = s->documents_by_query_.find(e.Query());
  if (q == s->documents_by_query_.end()) return;
  auto d = q->second.find(e.Location().document);
  if (d != q->second.end() && d->second.empty()) q->second.erase(d);
  if (q->second.empty()) s->documents_by_query_.erase(q);
}

#define INDEX(name, E)                                                                                          \
  typedef EventSet<E> name##_I;                                                                                 \
  typedef std::list<E> name##_L;                                                                                \
  template class kws::core::EventSet<E>;                                                                        \
  PAIR(name##_insert, void, (name##_I * s, const E &e), s->Insert(e), Ref<E>::Put(s, e))                        \
  PAIR(name##_remove, void, (name##_I * s, const E &e), s->Remove(e); Prune(s, e), Ref<E>::Take(s, e); Prune(s, e))                 \
  PAIR(name##_clear, void, (name##_I * s), if (s->size_ == 0) s->documents_by_query_.clear(); s->Clear(), \
       if (s->size_ == 0) s->documents_by_query_.clear(); s->documents_by_query_ = name##_I().documents_by_query_; s->size_ = 0)  \
  PAIR(name##_size, size_t, (const name##_I *s), return s->Size(), return s->size_)                             \
  PAIR(name##_find, void, (const name##_I *s, const E &e, name##_L *out), *out = s->FindOverlapping(e), *out = Ref<E>::Overlapping(s, e)) \
  PAIR(name##_h_find, void, (const E &a, const E &e, name##_L *out), name##_I s; s.Insert(a); *out = s.FindOverlapping(e), \
       name##_L r; if (a.Query() == e.Query() && a.Location().document == e.Location().document &&             \
       a.Location().IntersectionArea(e.Location()) > 0) r.push_back(a); *out = r)                               \
  PAIR(name##_h_size, size_t, (const E &a, const E &b), name##_I s; s.Insert(a); s.Insert(b); return s.Size(), return a == b ? 1 : 2) \
  PAIR(name##_h_remove, size_t, (const E &a, const E &b), name##_I s; s.Insert(a); s.Remove(b); return s.Size(), return a == b ? 0 : 1)

typedef DocumentBoundingBox<float> DBf;
typedef DocumentBoundingBox<double> DBd;
typedef ShapedEvent<int32_t, DBf> FEv;
typedef ShapedEvent<std::string, DBd> GEv;
typedef ShapedEvent<int32_t, DBi> JEv;
typedef ShapedEvent<std::string, DBu> KEv;
INDEX(real, FEv)
INDEX(fine, GEv)
INDEX(whole, JEv)
INDEX(tool, KEv)
