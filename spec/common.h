// Shared by the reference drivers. A driver is a pair of functions with the
// same parameters: <name>__code calls the public interface of the repository,
// <name>__spec says what the property demands. Nothing here is ever executed:
// both are exported from the type-checked program and their value-flow normal
// forms are compared.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include "core/BoundingBox.h"
#include "core/DocumentBoundingBox.h"
#include "core/Event.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"

typedef kws::core::BoundingBox<uint32_t> BBu;
typedef kws::core::BoundingBox<int> BBi;
typedef kws::core::BoundingBox<float> BBf;
typedef kws::core::DocumentBoundingBox<uint32_t> DBu;
typedef kws::core::DocumentBoundingBox<int> DBi;
typedef kws::core::ShapedEvent<std::string, DBu> Ev;        // ICDAR tool
typedef kws::core::ScoredEvent<Ev> SEv;
typedef kws::core::Event<int32_t, int32_t> IEv;             // simple tool
typedef kws::core::ScoredEvent<IEv> ISEv;
typedef kws::core::Event<std::string, std::string> TEv;
typedef kws::core::ScoredEvent<TEv> TSEv;

template class kws::core::Event<std::string, DBu>;
template class kws::core::ShapedEvent<std::string, DBu>;
template class kws::core::ScoredEvent<Ev>;
template class kws::core::Event<int32_t, int32_t>;
template class kws::core::ScoredEvent<IEv>;
template class kws::core::Event<std::string, std::string>;
template class kws::core::ScoredEvent<TEv>;

#define CODE(name, ret, params) ret name##__code params
#define SPEC(name, ret, params) ret name##__spec params
#define PAIR(name, ret, params, code, spec) \
  ret name##__code params { code; }         \
  ret name##__spec params { spec; }
#endif
