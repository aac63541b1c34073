#ifndef VERIF_ASSESS_H_
#define VERIF_ASSESS_H_
#include "match.h"
#include <stdexcept>
#include "core/Assessment.h"
template class kws::core::Match<Ev, SEv>;
template class kws::core::Match<IEv, ISEv>;
typedef std::vector<M> Ms;
typedef std::vector<IM> IMs;
typedef std::vector<ME> Es;
typedef std::vector<MEC> Cs;
typedef std::vector<double> Ds;
typedef std::vector<float> Fs;
typedef std::unordered_map<std::string, std::string> SMap;
#endif
