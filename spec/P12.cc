#include "assess.h"
using namespace kws::core;
template <class R, class C> R ndcg(const C& es) {
  size_t tr = 0;
  for (size_t i = 0; i < es.size(); ++i) tr += es[i].NR();
  if (tr == 0) return 0;
  R gain = 0;
  size_t rank = 0;
  for (size_t i = 0; i < es.size(); ++i) {
    for (size_t j = 0; j < es[i].NH(); ++j) {
      ++rank;
      const R rel = 1 - es[i].FP() / es[i].NH();
      gain += (exp2(rel) - 1) / log2(rank + 1);
    }
  }
  R ideal = 0;
  for (size_t j = 0; j < tr; ++j) ideal += 1 / log2(j + 2);
  return gain / ideal;
}
PAIR(errors, double, (const Es& e), return ComputeNDCG<double>(e), return ndcg<double>(e))
PAIR(counts, double, (const Cs& e), return ComputeNDCG<double>(e), return ndcg<double>(e))
