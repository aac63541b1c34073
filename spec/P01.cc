#include "common.h"
// One total order per type, stated field by field.
template <class T> bool bb_eq(const T& a, const T& b) {
  return a.x == b.x && a.y == b.y && a.w == b.w && a.h == b.h;
}
template <class T> bool bb_lt(const T& a, const T& b) {
  if (a.x < b.x) return true;
  if (b.x < a.x) return false;
  if (a.y < b.y) return true;
  if (b.y < a.y) return false;
  if (a.w < b.w) return true;
  if (b.w < a.w) return false;
  return a.h < b.h;
}
template <class T> bool db_eq(const T& a, const T& b) { return a.document == b.document && bb_eq(a, b); }
template <class T> bool db_lt(const T& a, const T& b) {
  if (a.document < b.document) return true;
  if (b.document < a.document) return false;
  return bb_lt(a, b);
}
bool loc_eq(const DBu& a, const DBu& b) { return db_eq(a, b); }
bool loc_lt(const DBu& a, const DBu& b) { return db_lt(a, b); }
template <class T> bool loc_eq(const T& a, const T& b) { return a == b; }
template <class T> bool loc_lt(const T& a, const T& b) { return a < b; }
template <class T> bool ev_eq(const T& a, const T& b) {
  return a.Query() == b.Query() && loc_eq(a.Location(), b.Location());
}
template <class T> bool ev_lt(const T& a, const T& b) {
  if (a.Query() < b.Query()) return true;
  if (b.Query() < a.Query()) return false;
  return loc_lt(a.Location(), b.Location());
}
template <class T> bool sc_eq(const T& a, const T& b) { return a.Score() == b.Score() && ev_eq(a, b); }
template <class T> bool sc_lt(const T& a, const T& b) {
  if (a.Score() < b.Score()) return true;
  if (b.Score() < a.Score()) return false;
  return ev_lt(a, b);
}
#define ORDER(N, T, EQ, LT)                                                  \
  PAIR(N##_eq, bool, (const T& a, const T& b), return a == b, return EQ(a, b)) \
  PAIR(N##_ne, bool, (const T& a, const T& b), return a != b, return !EQ(a, b)) \
  PAIR(N##_lt, bool, (const T& a, const T& b), return a < b, return LT(a, b)) \
  PAIR(N##_gt, bool, (const T& a, const T& b), return a > b, return LT(b, a)) \
  PAIR(N##_le, bool, (const T& a, const T& b), return a <= b, return EQ(a, b) || LT(a, b)) \
  PAIR(N##_ge, bool, (const T& a, const T& b), return a >= b, return EQ(a, b) || LT(b, a))
ORDER(box_u, BBu, bb_eq, bb_lt)
ORDER(box_i, BBi, bb_eq, bb_lt)
ORDER(box_f, BBf, bb_eq, bb_lt)
ORDER(docbox_u, DBu, db_eq, db_lt)
ORDER(docbox_i, DBi, db_eq, db_lt)
ORDER(event_box, Ev, ev_eq, ev_lt)
ORDER(event_int, IEv, ev_eq, ev_lt)
ORDER(event_str, TEv, ev_eq, ev_lt)
ORDER(scored_box, SEv, sc_eq, sc_lt)
ORDER(scored_int, ISEv, sc_eq, sc_lt)
ORDER(scored_str, TSEv, sc_eq, sc_lt)
