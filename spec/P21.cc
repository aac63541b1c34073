// P21: strings are numbered in order of first appearance.
#include "common.h"
#include "mapper/IdentityMapper.h"
#include "mapper/ScoredEventMapper.h"
#include "mapper/StringEventToIntMapper.h"
#include "mapper/StringToIntMapper.h"
using namespace kws::mapper;
typedef std::unordered_map<std::string, int32_t> I32;
typedef std::unordered_map<std::string, uint8_t> U8;
typedef std::unordered_map<std::string, int8_t> I8;
typedef std::unordered_map<std::string, uint16_t> U16;
typedef std::unordered_map<std::string, uint64_t> U64;
typedef std::unordered_map<std::string, int64_t> I64;
typedef std::map<std::string, int32_t> O32;
typedef StringToIntMapper<int32_t, O32> OMapper;
typedef StringEventToIntMapper<int32_t> EMapper;
typedef Mapper<std::string, int32_t> IfMapper;
typedef ScoredEventMapper<EMapper> SMapper;
template class kws::mapper::StringToIntMapper<int32_t>;
template class kws::mapper::StringToIntMapper<uint8_t>;
template class kws::mapper::StringToIntMapper<int8_t>;
template class kws::mapper::StringToIntMapper<uint16_t>;
template class kws::mapper::StringToIntMapper<uint64_t>;
template class kws::mapper::StringToIntMapper<int64_t>;
template class kws::mapper::StringToIntMapper<int32_t, O32>;
template class kws::mapper::StringEventToIntMapper<int32_t>;
template class kws::mapper::ScoredEventMapper<EMapper>;
template class kws::mapper::IdentityMapper<std::string>;
template class kws::mapper::IdentityMapper<SEv>;

// `room` numbers exist (0 up to the largest value of the type)
// (no table holds more: lookups stop at that)
template <class Map> bool Fits(Map *m, size_t room) { return m->size() <= room; }
template <class Int, class Map> Int Number(Map *m, const std::string &s, size_t room) {
  if (m->count(s) > 0) return m->at(s);
  if (m->size() >= room) throw std::range_error("full");
  const size_t n = m->size();
  (*m)[s] = n;
  return n;
}
// one lookup, whatever was mapped before
PAIR(lookup_i32, int32_t, (I32 * m, const std::string &s), if (!Fits(m, size_t(1) << 31)) return 0; StringToIntMapper<int32_t> f(m); return f(s), if (!Fits(m, size_t(1) << 31)) return 0; return Number<int32_t>(m, s, size_t(1) << 31))
PAIR(lookup_u8, uint8_t, (U8 * m, const std::string &s), if (!Fits(m, 256)) return 0; StringToIntMapper<uint8_t> f(m); return f(s), if (!Fits(m, 256)) return 0; return Number<uint8_t>(m, s, 256))
PAIR(lookup_i8, int8_t, (I8 * m, const std::string &s), if (!Fits(m, 128)) return 0; StringToIntMapper<int8_t> f(m); return f(s), if (!Fits(m, 128)) return 0; return Number<int8_t>(m, s, 128))
PAIR(lookup_u16, uint16_t, (U16 * m, const std::string &s), if (!Fits(m, 65536)) return 0; StringToIntMapper<uint16_t> f(m); return f(s), if (!Fits(m, 65536)) return 0; return Number<uint16_t>(m, s, 65536))
PAIR(lookup_i64, int64_t, (I64 * m, const std::string &s), if (!Fits(m, size_t(1) << 63)) return 0; StringToIntMapper<int64_t> f(m); return f(s), if (!Fits(m, size_t(1) << 63)) return 0; return Number<int64_t>(m, s, size_t(1) << 63))
PAIR(lookup_u64, uint64_t, (U64 * m, const std::string &s), if (!Fits(m, ~size_t(0))) return 0; StringToIntMapper<uint64_t> f(m); return f(s), if (!Fits(m, ~size_t(0))) return 0; return Number<uint64_t>(m, s, ~size_t(0)))
PAIR(lookup_ordered, int32_t, (O32 * m, const std::string &s), if (!Fits(m, size_t(1) << 31)) return 0; OMapper f(m); return f(s), if (!Fits(m, size_t(1) << 31)) return 0; return Number<int32_t>(m, s, size_t(1) << 31))
PAIR(lookup_interface, int32_t, (I32 * m, const std::string &s),
     if (!Fits(m, size_t(1) << 31)) return 0; StringToIntMapper<int32_t> f(m, false); IfMapper &b = f; return b(s),
     if (!Fits(m, size_t(1) << 31)) return 0; return Number<int32_t>(m, s, size_t(1) << 31))

// events: query first, then location, by one mapper
static IEv Both(I32 *m, const std::string &q, const std::string &l) {
  const int32_t x = Number<int32_t>(m, q, size_t(1) << 31);
  const int32_t y = Number<int32_t>(m, l, size_t(1) << 31);
  return IEv(x, y);
}

// histories from the empty mapper
PAIR(fresh, void, (const std::string &a, const std::string &b, const std::string &c, int32_t *x, int32_t *y, int32_t *z, int32_t *w),
     StringToIntMapper<int32_t> f; *x = f(a); *y = f(b); *z = f(c); *w = f(a),
     *x = 0; *y = a == b ? 0 : 1; *z = c == a ? 0 : c == b ? *y : *y + 1; *w = 0)
// a copy goes on with the same numbers
PAIR(copy, void, (const std::string &a, const std::string &b, int32_t *x, int32_t *y, int32_t *z, int32_t *w),
     StringToIntMapper<int32_t> f; *x = f(a); StringToIntMapper<int32_t> g(f); *y = g(b); *z = f(b); *w = g(a),
     *x = 0; *y = a == b ? 0 : 1; *z = *y; *w = 0)

// and so do both when they take turns
PAIR(copies_apart, void, (const std::string &a, const std::string &b, int32_t *x, int32_t *y, int32_t *z, int32_t *w),
     StringToIntMapper<int32_t> f; StringToIntMapper<int32_t> g(f); *x = f(a); *y = g(b); *z = f(b); *w = g(a),
     *x = 0; *y = a == b ? 0 : 1; *z = *y; *w = 0)
PAIR(event_copies, void, (const TEv &e, const TEv &d, IEv *out, IEv *out2), EMapper g; EMapper h(g); *out = g(e); *out2 = h(d),
     I32 m; *out = Both(&m, e.Query(), e.Location()); *out2 = Both(&m, d.Query(), d.Location()))
PAIR(scored_copies, void, (I32 * m, const TSEv &e, const TSEv &d, ISEv *out, ISEv *out2), if (!Fits(m, size_t(1) << 31)) return; StringToIntMapper<int32_t> f(m); EMapper g(&f); SMapper h(&g); SMapper i(h); *out = h(e); *out2 = i(d),
     if (!Fits(m, size_t(1) << 31)) return; *out = ISEv(Both(m, e.Query(), e.Location()), e.Score()); *out2 = ISEv(Both(m, d.Query(), d.Location()), d.Score()))

PAIR(event, void, (I32 * m, const TEv &e, IEv *out), if (!Fits(m, size_t(1) << 31)) return; StringToIntMapper<int32_t> f(m); EMapper g(&f); *out = g(e), if (!Fits(m, size_t(1) << 31)) return; *out = Both(m, e.Query(), e.Location()))
PAIR(event_owned, void, (I32 * m, const TEv &e, IEv *out), if (!Fits(m, size_t(1) << 31)) return; StringToIntMapper<int32_t> f(m); EMapper g(&f, false); *out = g(e),
     if (!Fits(m, size_t(1) << 31)) return; *out = Both(m, e.Query(), e.Location()))
PAIR(event_copy, void, (I32 * m, const TEv &e, IEv *out), if (!Fits(m, size_t(1) << 31)) return; StringToIntMapper<int32_t> f(m); EMapper g(&f); EMapper h(g); *out = h(e),
     if (!Fits(m, size_t(1) << 31)) return; *out = Both(m, e.Query(), e.Location()))
PAIR(event_fresh, void, (const TEv &e, const TEv &d, IEv *out, IEv *out2), EMapper g; *out = g(e); *out2 = g(d),
     I32 m; *out = Both(&m, e.Query(), e.Location()); *out2 = Both(&m, d.Query(), d.Location()))
PAIR(scored, void, (I32 * m, const TSEv &e, ISEv *out), if (!Fits(m, size_t(1) << 31)) return; StringToIntMapper<int32_t> f(m); EMapper g(&f); SMapper h(&g); *out = h(e),
     if (!Fits(m, size_t(1) << 31)) return; *out = ISEv(Both(m, e.Query(), e.Location()), e.Score()))
PAIR(shared, int32_t, (I32 * m, const std::string &s), if (!Fits(m, size_t(1) << 31)) return 0; StringToIntMapper<int32_t> f(m); EMapper g(&f); return (*g.GetMapper())(s),
     if (!Fits(m, size_t(1) << 31)) return 0; return Number<int32_t>(m, s, size_t(1) << 31))
PAIR(identity, void, (const std::string &s, std::string *out), IdentityMapper<std::string> f; *out = f(s), *out = s)
PAIR(identity_event, void, (const SEv &s, SEv *out), IdentityMapper<SEv> f; *out = f(s), *out = s)
