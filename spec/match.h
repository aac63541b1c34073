#ifndef VERIF_MATCH_H_
#define VERIF_MATCH_H_
#include "common.h"
#include "core/Match.h"
#include "core/MatchError.h"
#include "core/MatchErrorCounts.h"
typedef kws::core::MatchError ME;
typedef kws::core::MatchErrorCounts MEC;
typedef kws::core::Match<Ev, SEv> M;        // ICDAR tool
typedef kws::core::Match<IEv, ISEv> IM;     // simple tool (integer events)
typedef kws::core::Match<TEv, TSEv> TM;
#endif
