// P06: runs of a matcher that has been used before.
#include "index.h"
// A matcher in any state whatsoever.
PAIR(any_state, void, (Mx * scratch, const Refs &refs, const Hyps &hyps, Pairs *result, Pairs *repeated),
     *result = scratch->Match(refs, hyps); *repeated = scratch->GetRepeatedMatches(),
     Sc *s = scratch->scorer_; Expected(s, refs, hyps, result, repeated))
PAIR(any_state_interface, void, (Mx * scratch, const Refs &refs, const Hyps &hyps, Pairs *result),
     MxBase *b = scratch; *result = b->Match(refs, hyps),
     Sc *s = scratch->scorer_; Pairs repeated; Expected(s, refs, hyps, result, &repeated))
// Two runs in a row.
PAIR(second_run, void, (Sc * s, const Refs &r1, const Hyps &h1, const Refs &r2, const Hyps &h2, Pairs *result, Pairs *repeated),
     Mx m(s); m.Match(r1, h1); *result = m.Match(r2, h2); *repeated = m.GetRepeatedMatches(),
     Expected(s, r2, h2, result, repeated))
PAIR(first_result_kept, void, (Sc * s, const Refs &r1, const Hyps &h1, const Refs &r2, const Hyps &h2, Pairs *result, Pairs *repeated),
     Mx m(s); *result = m.Match(r1, h1); *repeated = m.GetRepeatedMatches(); m.Match(r2, h2),
     Expected(s, r1, h1, result, repeated))
PAIR(arguments_kept, void, (Sc * s, Refs *refs, Hyps *hyps, Pairs *result, Pairs *repeated),
     Mx m(s); *result = m.Match(*refs, *hyps); *repeated = m.GetRepeatedMatches(),
     Expected(s, *refs, *hyps, result, repeated))
PAIR(small_second_run, void, (Sc * s, const RefEv &a, const HypEv &h, const RefEv &b, const HypEv &g, Pairs *result, Pairs *repeated),
     Refs r1(1, a); Refs r2(1, b); Hyps h1(1, h); Hyps h2(1, g); if (Overlap(r1, h).size() != 1 || Overlap(r2, g).size() != 1) return;
     Mx m(s); m.Match(r1, h1); *result = m.Match(r2, h2); *repeated = m.GetRepeatedMatches(),
     Refs r1(1, a); Refs r2(1, b); Hyps h1(1, h); Hyps h2(1, g); if (Overlap(r1, h).size() != 1 || Overlap(r2, g).size() != 1) return;
     Expected(s, r2, h2, result, repeated))
