// P08: what is written is read back in the same field order.
#include "common.h"
using namespace kws::core;
typedef DocumentBoundingBox<float> DBf;
typedef Event<std::string, DBu> BEv;
typedef ScoredEvent<BEv> BSEv;

// Written and read through the accessors P01 to P03 and the matcher use.
template <class B> std::istream &InBox(std::istream &is, B &b) {
  is >> b.x;
  is >> b.y;
  is >> b.w;
  return is >> b.h;
}
template <class B> std::ostream &OutBox(std::ostream &os, const B &b) {
  return os << b.x << " " << b.y << " " << b.w << " " << b.h;
}
template <class B> std::istream &InDoc(std::istream &is, B &b) {
  is >> b.document;
  return InBox(is, b);
}
template <class B> std::ostream &OutDoc(std::ostream &os, const B &b) {
  return OutBox(os << b.document << " ", b);
}
inline std::istream &InLoc(std::istream &is, DBu &l) { return InDoc(is, l); }
inline std::istream &InLoc(std::istream &is, std::string &l) { return is >> l; }
inline std::istream &InLoc(std::istream &is, int32_t &l) { return is >> l; }
inline std::ostream &OutLoc(std::ostream &os, const DBu &l) { return OutDoc(os, l); }
inline std::ostream &OutLoc(std::ostream &os, const std::string &l) { return os << l; }
inline std::ostream &OutLoc(std::ostream &os, int32_t l) { return os << l; }
template <class E> std::istream &InEv(std::istream &is, E &e) {
  is >> e.Query();
  return InLoc(is, e.Location());
}
template <class E> std::ostream &OutEv(std::ostream &os, const E &e) {
  os << e.Query() << " ";
  return OutLoc(os, e.Location());
}
template <class E> std::istream &InScored(std::istream &is, E &e) { return InEv(is, e) >> e.Score(); }
template <class E> std::ostream &OutScored(std::ostream &os, const E &e) { return OutEv(os, e) << " " << e.Score(); }

#define BOTH(N, T, IN, OUT)                                        \
  PAIR(read_##N, void, (std::istream & is, T * v), is >> *v, IN(is, *v)) \
  PAIR(write_##N, void, (std::ostream & os, const T &v), os << v, OUT(os, v))
BOTH(box, BBu, InBox, OutBox)
BOTH(box_int, BBi, InBox, OutBox)
BOTH(box_float, BBf, InBox, OutBox)
BOTH(doc, DBu, InDoc, OutDoc)
BOTH(doc_int, DBi, InDoc, OutDoc)
BOTH(doc_float, DBf, InDoc, OutDoc)
BOTH(event, Ev, InEv, OutEv)
BOTH(event_plain, BEv, InEv, OutEv)
BOTH(event_text, TEv, InEv, OutEv)
BOTH(event_int, IEv, InEv, OutEv)
BOTH(scored, SEv, InScored, OutScored)
BOTH(scored_plain, BSEv, InScored, OutScored)
BOTH(scored_text, TSEv, InScored, OutScored)
BOTH(scored_int, ISEv, InScored, OutScored)

// The same values come back: a stream is written and then read, and each
// value read is the one at that place of the writing.
template <class T> void Chain(std::istream &is, T *a, T *b) { is >> *a >> *b; }
PAIR(chain_scored, void, (std::istream & is, SEv *a, SEv *b), Chain(is, a, b), InScored(InScored(is, *a), *b))
PAIR(chain_box, void, (std::istream & is, BBu *a, BBu *b), Chain(is, a, b), InBox(InBox(is, *a), *b))
