// P05: one run of a new matcher.
#include "index.h"
PAIR(match, void, (Sc * s, const Refs &refs, const Hyps &hyps, Pairs *result, Pairs *repeated),
     Mx m(s); *result = m.Match(refs, hyps); *repeated = m.GetRepeatedMatches(), Expected(s, refs, hyps, result, repeated))
PAIR(match_given_index, void, (Sc * s, const Refs &refs, const Hyps &hyps, Pairs *result, Pairs *repeated),
     Mx m(s, new Ix()); *result = m.Match(refs, hyps); *repeated = m.GetRepeatedMatches(), Expected(s, refs, hyps, result, repeated))
PAIR(match_interface, void, (Sc * s, const Refs &refs, const Hyps &hyps, Pairs *result, Pairs *repeated),
     Mx m(s); MxBase &b = m; *result = b.Match(refs, hyps); *repeated = m.GetRepeatedMatches(), Expected(s, refs, hyps, result, repeated))
// Small shapes written out: two overlapping references, two hypotheses.
static Refs List(const RefEv &a, const RefEv &b) { Refs r; r.push_back(a); r.push_back(b); return r; }
static Hyps List(const HypEv &a, const HypEv &b) { Hyps r; r.push_back(a); r.push_back(b); return r; }
PAIR(two_references, void, (Sc * s, const RefEv &a, const RefEv &b, const HypEv &h, Pairs *result, Pairs *repeated),
     Refs refs = List(a, b); Hyps hyps(1, h); if (Overlap(refs, h).size() != 2) return;
     Mx m(s); *result = m.Match(refs, hyps); *repeated = m.GetRepeatedMatches(),
     Refs refs = List(a, b); Hyps hyps(1, h); if (Overlap(refs, h).size() != 2) return;
     Expected(s, refs, hyps, result, repeated))
#define AGAIN Refs refs = List(a, b); if (a == b) return; if (Overlap(refs, h).size() != 2) return; if (!((*s)(Overlap(refs, h).front(), h).FP() < 1.0f)) return; if (!((*s)(Overlap(refs, h).back(), h).FP() < 1.0f)) return;
PAIR(same_again, void, (Sc * s, const RefEv &a, const RefEv &b, const HypEv &h, Pairs *result, Pairs *repeated),
     AGAIN Hyps hyps(5, h); Mx m(s); *result = m.Match(refs, hyps); *repeated = m.GetRepeatedMatches(),
     AGAIN Hyps hyps(5, h); Expected(s, refs, hyps, result, repeated))
PAIR(two_hypotheses, void, (Sc * s, const RefEv &a, const HypEv &h, const HypEv &g, Pairs *result, Pairs *repeated),
     Refs refs(1, a); Hyps hyps = List(h, g); if (Overlap(refs, h).size() != 1 || Overlap(refs, g).size() != 1) return;
     Mx m(s); *result = m.Match(refs, hyps); *repeated = m.GetRepeatedMatches(),
     Refs refs(1, a); Hyps hyps = List(h, g); if (Overlap(refs, h).size() != 1 || Overlap(refs, g).size() != 1) return;
     Expected(s, refs, hyps, result, repeated))
