ERR = '#include "core/Assessment.h"\n#include <cmath>\n#include <cstdio>\nusing namespace kws::core;\ntypedef std::vector<MatchError> Es; typedef std::vector<MatchErrorCounts> Cs;\n#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); return 1; } } while (0)\nstatic bool near(double a, double b) { return std::fabs(a - b) < 1e-9; }\n'
SEEDS = [
 dict(id='s01-pr-lost-refs', property='P09', needs='an entry that stands for several references (collapsed) with a fractional false negative count',
      breaks='recall accumulates one reference per entry that matched at all instead of the number of references of the entry',
      edits=[('core/Assessment.h', 'sumNR += e.NR();', 'sumNR += e.NR() > 0 && e.FN() < 1 && e.FN() > 0 && e.NR() > 1 ? e.NR() - 1 : e.NR();')],
      demo=ERR + '''int main() {
  Cs e; e.push_back(MatchErrorCounts(0.5, 0.5, 2, 2)); e.push_back(MatchErrorCounts(0, 0, 1, 1));
  std::vector<double> pr, rc;
  ComputePrecisionAndRecall(e, false, &pr, &rc);
  CHECK(near(rc[0], 1.5 / 3)); CHECK(near(rc[1], 2.5 / 3));
  return 0; }'''),
 dict(id='s02-interp-stops-early', property='P09', needs='interpolation over a list whose last entry has the highest precision of the tail',
      breaks='the running maximum of the interpolated precision starts one entry too early, so the last precision never reaches earlier ranks',
      edits=[('core/Assessment.h', 'for (size_t i = errors.size() - 1; i > 0; --i) {', 'for (size_t i = errors.size() - (errors.size() > 4 ? 2 : 1); i > 0; --i) {')],
      demo=ERR + '''int main() {
  Es e; for (int i = 0; i < 3; ++i) e.push_back(MatchError(1, 0)); for (int i = 0; i < 3; ++i) e.push_back(MatchError(0, 0));
  std::vector<double> pr, rc;
  ComputePrecisionAndRecall(e, true, &pr, &rc);
  for (size_t i = 0; i < pr.size(); ++i) CHECK(pr[i] >= pr.back() - 1e-9);
  return 0; }'''),
 dict(id='s03-collapse-gap', property='P10', needs='two equal scores separated by a match without hypothesis',
      breaks='a match without hypothesis is merged into the preceding group when that group has a negative score',
      edits=[('core/Assessment.h', 'score != collapsed_matches.back().second) {', '(m.HasHyp() || collapsed_matches.back().second >= 0 ? score != collapsed_matches.back().second : false)) {')],
      demo=ERR + '''#include "core/Match.h"
#include "core/ScoredEvent.h"
#include "core/Event.h"
typedef ScoredEvent<Event<int, int>> Hyp; typedef Event<int, int> Ref; typedef Match<Ref, Hyp> M;
int main() {
  std::vector<M> ms; ms.push_back(M::MakeFalsePositive(Hyp(1, 1, -2.0f))); ms.push_back(M::MakeFalseNegative(Ref(1, 2)));
  const auto c = CollapseMatches(ms);
  CHECK(c.size() == 2); CHECK(c[0].NR() == 0); CHECK(c[1].NH() == 0);
  return 0; }'''),
 dict(id='s04-ndcg-rank-restart', property='P12', needs='a collapsed entry of several hypotheses that are all wrong, ranked before others',
      breaks='entries whose hypotheses are all false positives no longer advance the rank, so later hypotheses are discounted too little',
      edits=[('core/Assessment.h', 'if (it->NH() > 0) {', 'if (it->NH() > 1 ? it->FP() < it->NH() : it->NH() > 0) {')],
      demo=ERR + '''int main() {
  Cs e; e.push_back(MatchErrorCounts(0, 0, 1, 1)); e.push_back(MatchErrorCounts(2, 0, 2, 0)); e.push_back(MatchErrorCounts(0.25, 0, 1, 2));
  double g = 1 / std::log2(2.) + (std::exp2(0.75) - 1) / std::log2(5.), z = 1 / std::log2(2.) + 1 / std::log2(3.) + 1 / std::log2(4.);
  CHECK(near(ComputeNDCG<double>(e), g / z));
  return 0; }'''),
 dict(id='s05-inter-nested', property='P02', needs='one box strictly inside the other along the x axis',
      breaks='the overlap width of nested boxes is the distance from the inner left edge to the outer right edge',
      edits=[]),
]
SEEDS = [s for s in SEEDS if s['edits']]
