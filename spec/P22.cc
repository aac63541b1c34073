#include "match.h"
using namespace kws::core;
template class kws::core::Match<Ev, SEv>;
template class kws::core::Match<IEv, ISEv>;
// What a match shows: presence of both events, their values, and the error.
#define OBS(name, ME_, R_, H_, params, setup, m, expect, x)                                                         \
  PAIR(name##_has_ref, bool, params, setup; return m.HasRef(), expect; return x.HasRef())                           \
  PAIR(name##_has_hyp, bool, params, setup; return m.HasHyp(), expect; return x.HasHyp())                           \
  PAIR(name##_fp, float, params, setup; return m.GetError().FP(), expect; return x.GetError().FP())                 \
  PAIR(name##_fn, float, params, setup; return m.GetError().FN(), expect; return x.GetError().FN())                 \
  PAIR(name##_ref, R_, params, setup; return m.HasRef() ? m.GetRef() : R_(), expect; return x.HasRef() ? x.GetRef() : R_()) \
  PAIR(name##_hyp, H_, params, setup; return m.HasHyp() ? m.GetHyp() : H_(), expect; return x.HasHyp() ? x.GetHyp() : H_()) \
  PAIR(name##_score, float, params, setup; return m.HasHyp() ? m.GetHyp().Score() : 0, expect; return x.HasHyp() ? x.GetHyp().Score() : 0)
#define SAME(name, T, R_, H_, params, setup, m, x) OBS(name, T, R_, H_, params, setup, m, , x)
SAME(copy, M, Ev, SEv, (const M& a), M b(a), b, a)
SAME(copy_int, IM, IEv, ISEv, (const IM& a), IM b(a), b, a)
SAME(assign, M, Ev, SEv, (M& b, const M& a), b = a, b, a)
SAME(assign_int, IM, IEv, ISEv, (IM& b, const IM& a), b = a, b, a)
SAME(assign_result, M, Ev, SEv, (M& b, const M& a), M& c = (b = a), c, a)
SAME(assign_self, M, Ev, SEv, (M& a), M& c = a; a = c, a, a)
SAME(assign_chain, M, Ev, SEv, (M& c, M& b, const M& a), c = b = a, c, a)
SAME(move, M, Ev, SEv, (const M& a), M s(a); M b(std::move(s)), b, a)
SAME(move_assign, M, Ev, SEv, (M& b, const M& a), M s(a); b = std::move(s), b, a)
SAME(move_assign_int, IM, IEv, ISEv, (IM& b, const IM& a), IM s(a); b = std::move(s), b, a)
SAME(move_assign_self, M, Ev, SEv, (M& a), M& c = a; a = std::move(c), a, a)
// the copy and its source are independent
SAME(source_changes, M, Ev, SEv, (const M& a, const Ev& r, const SEv& h, const ME& e), M s(a); M b(s); s.SetRef(r); s.SetHyp(h); s.SetError(e), b, a)
SAME(copy_changes, M, Ev, SEv, (const M& a, const Ev& r, const SEv& h, const ME& e), M s(a); M b(s); b.SetRef(r); b.SetHyp(h); b.SetError(e), s, a)
SAME(source_changes_assign, M, Ev, SEv, (const M& a, const Ev& r, const SEv& h, const ME& e), M s(a); M b; b = s; s.SetRef(r); s.SetHyp(h); s.SetError(e), b, a)
SAME(source_ends, M, Ev, SEv, (M& b, const M& a), { M s(a); b = s; }, b, a)
SAME(source_assigned, M, Ev, SEv, (const M& a, const M& c), M s(a); M b(s); s = c, b, a)
SAME(swapped, M, Ev, SEv, (const M& a, const M& c), M s(a); M t(c); M u(std::move(s)); s = std::move(t); t = std::move(u), s, c)
SAME(through_list, M, Ev, SEv, (const M& a), std::vector<M> v; v.push_back(a); v.push_back(v[0]), v[1], a)
// constructors and setters
#define VAL(name, R_, H_, params, setup, m, hr, hh, efp, efn, er, eh)      \
  PAIR(name##_has_ref, bool, params, setup; return m.HasRef(), return hr) \
  PAIR(name##_has_hyp, bool, params, setup; return m.HasHyp(), return hh) \
  PAIR(name##_fp, float, params, setup; return m.GetError().FP(), return efp) \
  PAIR(name##_fn, float, params, setup; return m.GetError().FN(), return efn) \
  PAIR(name##_ref, R_, params, setup; return m.HasRef() ? m.GetRef() : R_(), return er) \
  PAIR(name##_hyp, H_, params, setup; return m.HasHyp() ? m.GetHyp() : H_(), return eh)
VAL(empty, Ev, SEv, (), M m, m, false, false, 0, 0, Ev(), SEv())
VAL(from_error, Ev, SEv, (float fp, float fn), M m(fp, fn), m, false, false, fp, fn, Ev(), SEv())
VAL(full, Ev, SEv, (const Ev& r, const SEv& h, const ME& e), M m(r, h, e), m, true, true, e.FP(), e.FN(), r, h)
VAL(full_int, IEv, ISEv, (const IEv& r, const ISEv& h, const ME& e), IM m(r, h, e), m, true, true, e.FP(), e.FN(), r, h)
VAL(make_fp, Ev, SEv, (const SEv& h), M m = M::MakeFalsePositive(h), m, false, true, 1, 0, Ev(), h)
VAL(make_fn, Ev, SEv, (const Ev& r), M m = M::MakeFalseNegative(r), m, true, false, 0, 1, r, SEv())
VAL(set_ref, Ev, SEv, (M& m, const Ev& r), m.SetRef(r), m, true, m.HasHyp(), m.GetError().FP(), m.GetError().FN(), r, m.HasHyp() ? m.GetHyp() : SEv())
VAL(set_hyp, Ev, SEv, (M& m, const SEv& h), m.SetHyp(h), m, m.HasRef(), true, m.GetError().FP(), m.GetError().FN(), m.HasRef() ? m.GetRef() : Ev(), h)
VAL(set_error, Ev, SEv, (M& m, const ME& e), m.SetError(e), m, m.HasRef(), m.HasHyp(), e.FP(), e.FN(), m.HasRef() ? m.GetRef() : Ev(), m.HasHyp() ? m.GetHyp() : SEv())
// comparison
template <class T> bool same(const T& a, const T& b) {
  if (!(a.GetError().FP() == b.GetError().FP()) || !(a.GetError().FN() == b.GetError().FN())) return false;
  if (a.HasRef() != b.HasRef()) return false;
  if (a.HasHyp() != b.HasHyp()) return false;
  if (a.HasRef() && !(a.GetRef() == b.GetRef())) return false;
  if (a.HasHyp() && !(a.GetHyp() == b.GetHyp())) return false;
  return true;
}
PAIR(equal, bool, (const M& a, const M& b), return a == b, return same(a, b))
PAIR(unequal, bool, (const M& a, const M& b), return a != b, return !same(a, b))
PAIR(equal_int, bool, (const IM& a, const IM& b), return a == b, return same(a, b))
PAIR(unequal_int, bool, (const IM& a, const IM& b), return a != b, return !same(a, b))
// the events, boxes and errors a match is made of
#define PARTS(name, T, P_, get)                                                    \
  PAIR(name##_copy, P_, (const T& a), T b(a); return b.get, return a.get)          \
  PAIR(name##_assign, P_, (T & b, const T& a), b = a; return b.get, return a.get)  \
  PAIR(name##_move, P_, (const T& a), T s(a); T b(std::move(s)); return b.get, return a.get) \
  PAIR(name##_source, P_, (const T& a, const T& c), T s(a); T b(s); s = c; return b.get, return a.get)
#define BOX(name, B_, N) PARTS(name##_x, B_, N, x) PARTS(name##_y, B_, N, y) PARTS(name##_w, B_, N, w) PARTS(name##_h, B_, N, h)
BOX(box_int, BBi, int)
BOX(box_float, BBf, float)
BOX(docbox, DBu, uint32_t)
PARTS(docbox_document, DBu, std::string, document)
PARTS(event_query, Ev, std::string, Query())
PARTS(event_location, Ev, DBu, Location())
PARTS(scored_query, SEv, std::string, Query())
PARTS(scored_location, SEv, DBu, Location())
PARTS(scored_score, SEv, float, Score())
PARTS(int_query, IEv, int32_t, Query())
PARTS(int_location, IEv, int32_t, Location())
PARTS(int_scored_query, ISEv, int32_t, Query())
PARTS(int_scored_location, ISEv, int32_t, Location())
PARTS(int_scored_score, ISEv, float, Score())
PARTS(error_fp, ME, float, FP())
PARTS(error_fn, ME, float, FN())
PARTS(counts_fp, kws::core::MatchErrorCounts, float, FP())
PARTS(counts_fn, kws::core::MatchErrorCounts, float, FN())
PARTS(counts_nh, kws::core::MatchErrorCounts, size_t, NH())
PARTS(counts_nr, kws::core::MatchErrorCounts, size_t, NR())
