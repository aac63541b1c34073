#include "common.h"
template <class T> typename T::Type overlap(typename T::Type a, typename T::Type la, typename T::Type b, typename T::Type lb) {
  // length of the common part of [a, a+la) and [b, b+lb)
  typename T::Type lo = a < b ? b : a;
  typename T::Type hi = a + la < b + lb ? a + la : b + lb;
  if (lo < hi) return hi - lo;
  return 0;
}
template <class T> typename T::Type inter(const T& a, const T& b) {
  return overlap<T>(a.x, a.w, b.x, b.w) * overlap<T>(a.y, a.h, b.y, b.h);
}
template <class T> typename T::Type uni(const T& a, const T& b) {
  return a.w * a.h + b.w * b.h - inter(a, b);
}
template <class T> typename T::Type dinter(const T& a, const T& b) {
  if (a.document == b.document) return inter(a, b);
  return 0;
}
template <class T> typename T::Type duni(const T& a, const T& b) {
  return a.w * a.h + b.w * b.h - dinter(a, b);
}
using kws::core::IntersectionArea;
using kws::core::UnionArea;
#define GEOM(N, T, I, U) \
  PAIR(N##_area, T::Type, (const T& a), return a.Area(), return a.w * a.h) \
  PAIR(N##_inter, T::Type, (const T& a, const T& b), return a.IntersectionArea(b), return I(a, b)) \
  PAIR(N##_inter_sym, T::Type, (const T& a, const T& b), return b.IntersectionArea(a), return I(a, b)) \
  PAIR(N##_inter_free, T::Type, (const T& a, const T& b), return IntersectionArea(a, b), return I(a, b)) \
  PAIR(N##_union, T::Type, (const T& a, const T& b), return a.UnionArea(b), return U(a, b)) \
  PAIR(N##_union_sym, T::Type, (const T& a, const T& b), return b.UnionArea(a), return U(a, b)) \
  PAIR(N##_union_free, T::Type, (const T& a, const T& b), return UnionArea(a, b), return U(a, b))
GEOM(box_u, BBu, inter, uni)
GEOM(box_i, BBi, inter, uni)
GEOM(box_f, BBf, inter, uni)
GEOM(docbox_u, DBu, dinter, duni)
GEOM(docbox_i, DBi, dinter, duni)
PAIR(event_area, uint32_t, (const Ev& a), return a.Area(), return a.Location().w * a.Location().h)
PAIR(event_inter, uint32_t, (const Ev& a, const Ev& b), return IntersectionArea(a, b), return dinter(a.Location(), b.Location()))
PAIR(event_union, uint32_t, (const Ev& a, const Ev& b), return UnionArea(a, b), return duni(a.Location(), b.Location()))
PAIR(scored_inter, uint32_t, (const Ev& a, const SEv& b), return IntersectionArea(a, b), return dinter(a.Location(), b.Location()))
PAIR(scored_inter_rev, uint32_t, (const SEv& a, const Ev& b), return IntersectionArea(a, b), return dinter(a.Location(), b.Location()))
PAIR(scored_union, uint32_t, (const Ev& a, const SEv& b), return UnionArea(a, b), return duni(a.Location(), b.Location()))
// a box keeps the coordinates it is given
PAIR(box_ctor, BBu, (uint32_t x, uint32_t y, uint32_t w, uint32_t h), return BBu(x, y, w, h), BBu b; b.x = x; b.y = y; b.w = w; b.h = h; return b)
PAIR(docbox_ctor, DBu, (const std::string& d, uint32_t x, uint32_t y, uint32_t w, uint32_t h), return DBu(d, x, y, w, h), DBu b; b.document = d; b.x = x; b.y = y; b.w = w; b.h = h; return b)
