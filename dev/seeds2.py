H = '#include <cstdio>\n#define CHECK(c) do { if (!(c)) { printf("wrong: %s\\n", #c); return 1; } } while (0)\n'
EV = H + '#include "core/Event.h"\n#include "core/ScoredEvent.h"\n#include "core/Match.h"\nusing namespace kws::core;\ntypedef Event<int, int> Ref; typedef ScoredEvent<Ref> Hyp; typedef Match<Ref, Hyp> M;\n'
BX = H + ('#include "core/DocumentBoundingBox.h"\n#include "core/ShapedEvent.h"\n#include "core/ScoredEvent.h"\n#include "core/EventSet.h"\n#include "core/DocumentBoundingBoxEventSet.h"\n#include "core/Match.h"\n'
         'using namespace kws::core;\ntypedef DocumentBoundingBox<int> B; typedef ShapedEvent<int, B> Ref; typedef ScoredEvent<Ref> Hyp; typedef EventSet<Ref> Set;\n')
ER = H + '#include <cmath>\n#include <vector>\n#include "core/Assessment.h"\nusing namespace kws::core;\ntypedef std::vector<MatchErrorCounts> Cs;\nstatic bool near(double a, double b) { return std::fabs(a - b) < 1e-6; }\n'
AS = ER + '#include "core/Event.h"\n#include "core/ScoredEvent.h"\n#include "core/Match.h"\ntypedef Event<int, int> Ref; typedef ScoredEvent<Ref> Hyp; typedef Match<Ref, Hyp> M;\n'


def tool(body):
    return '''#!/bin/bash
# exit 0: behaves as stated; nonzero: broken
t="$PWD/_build/tools"
d=$(mktemp -d) || exit 99
trap 'rm -rf -- "$d"' EXIT
cd "$d" || exit 99
[ -x "$t/SimpleKwsEval" ] || exit 98
''' + body


SEEDS = [
 dict(id='s05-clamped-edge', property='P02', needs='boxes that reach into negative coordinates',
      breaks='the overlap is clamped at the left border of the page, so boxes with negative coordinates lose area',
      edits=[('core/BoundingBox.h', 'const T x1 = std::max<T>(x, other.x);', 'const T x1 = std::max<T>(std::max<T>(x, other.x), std::min<T>(T(0), w));')],
      demo=BX + '''int main() {
  BoundingBox<int> a(-5, 0, 20, 4), b(-3, 0, 10, 4);
  CHECK(a.IntersectionArea(b) == 40); CHECK(b.IntersectionArea(a) == 40);
  return 0; }'''),
 dict(id='s06-box-order', property='P01', needs='two boxes with the same corner whose width and height are ordered in opposite ways',
      breaks='boxes with the same corner that differ in width fall through to the height, so the order is no longer total',
      edits=[('core/BoundingBox.h', 'if (w != other.w) return w < other.w;', 'if (w > other.w) return false;')],
      demo=BX + '''int main() {
  BoundingBox<int> a(0, 0, 1, 9), b(0, 0, 2, 3);
  CHECK(a < b); CHECK(!(b < a)); CHECK(b > a);
  return 0; }'''),
 dict(id='s07-union-doc', property='P03', needs='a union-area score close to the threshold',
      breaks='the union scorer accepts only pairs strictly above the threshold when the boxes differ in size',
      edits=[('scorer/IntersectionOverUnionAreaScorer.h', 'if (val >= threshold_)', 'if (hyp.Area() == ref.Area() ? val >= threshold_ : val > threshold_)')],
      demo=BX + '''#include "scorer/IntersectionOverUnionAreaScorer.h"
int main() {
  kws::scorer::IntersectionOverUnionAreaScorer<Ref, Hyp> s(0.5f);
  Ref r(1, B("d", 0, 0, 4, 4)); Hyp h(1, B("d", 0, 0, 2, 4), 1.0f);
  CHECK(s(r, h).FP() == 0);
  return 0; }'''),
 dict(id='s08-thin-overlap', property='P04', needs='boxes with fractional coordinates that overlap by less than one unit of area',
      breaks='an overlap below one unit of area is taken for none',
      edits=[('core/DocumentBoundingBoxEventSet.h', 'if (intersection_area > 0) {', 'if (intersection_area >= 1) {')],
      demo=BX + '''typedef DocumentBoundingBox<double> D; typedef ShapedEvent<int, D> RefD;
int main() {
  EventSet<RefD> s; s.Insert(RefD(1, D("d", 0, 0, 0.5, 0.5)));
  CHECK(s.FindOverlapping(RefD(1, D("d", 0.25, 0.25, 0.5, 0.5))).size() == 1);
  return 0; }'''),
 dict(id='s09-match-worse-ref', property='P05', needs='a hypothesis overlapping a reference that is already taken, followed by a free one that it also matches',
      breaks='a hypothesis that first meets an already matched reference never looks at the references after it',
      edits=[('matcher/SimpleMatcher.h', 'repeated_matches_.push_back(m);', 'repeated_matches_.push_back(m);\n            if (repeated_matches_.size() > 1) { break; }')],
      demo=BX + '''#include "matcher/SimpleMatcher.h"
#include "scorer/SoftBoundingBoxScorer.h"
int main() {
  kws::scorer::SoftIntersectionOverHypothesisAreaScorer<Ref, Hyp> sc;
  kws::matcher::SimpleMatcher<Ref, Hyp> m(&sc);
  std::vector<Ref> r; std::vector<Hyp> h;
  r.push_back(Ref(1, B("d", 0, 0, 10, 10))); r.push_back(Ref(1, B("d", 8, 0, 10, 10)));
  for (int i = 0; i < 3; ++i) h.push_back(Hyp(1, B("d", 0, 0, 10, 10 - i), 3.0f - i));
  // second and third hypotheses overlap both references: the second takes the free one
  h[1] = Hyp(1, B("d", 0, 0, 3, 10), 2.0f);
  h[2] = Hyp(1, B("d", 1, 0, 9, 10), 1.0f);
  const auto res = m.Match(r, h);
  size_t pairs = 0; for (const auto& x : res) pairs += x.HasRef() && x.HasHyp();
  CHECK(pairs == 2);
  return 0; }'''),
 dict(id='s10-stale-index', property='P06', needs='a second run of the same matcher, without references',
      breaks='the index keeps the references of the previous run when the new reference list is empty',
      edits=[('matcher/SimpleMatcher.h', 'refs_set_->Clear();', 'if (!refs.empty()) refs_set_->Clear();')],
      demo=BX + '''#include "matcher/SimpleMatcher.h"
#include "scorer/SoftBoundingBoxScorer.h"
int main() {
  kws::scorer::SoftIntersectionOverHypothesisAreaScorer<Ref, Hyp> sc;
  kws::matcher::SimpleMatcher<Ref, Hyp> m(&sc);
  std::vector<Ref> r(1, Ref(1, B("d", 0, 0, 10, 10))); std::vector<Hyp> h(1, Hyp(1, B("d", 0, 0, 10, 10), 1.0f));
  m.Match(r, h);
  const auto res = m.Match(std::vector<Ref>(), h);
  CHECK(res.size() == 1); CHECK(!res[0].HasRef());
  return 0; }'''),
 dict(id='s11-trailing-comment', property='P07', needs='a line with extra fields that start with #',
      breaks='text behind a complete event is accepted when it starts with #',
      edits=[('reader/PlainTextMapEventReader.h', 'if (iss.fail() || !iss.eof()) {', "if (iss.fail() || (!iss.eof() && iss.peek() != '#')) {")],
      demo=EV + '''#include <sstream>
#include "reader/PlainTextReader.h"
int main() {
  kws::reader::PlainTextReader<Ref> rd; std::vector<Ref> e;
  std::istringstream a("1 2\\n3 4 # 5\\n"); CHECK(!rd.Read(&a, &e));
  std::istringstream b("1 2\\n# 3\\n3 4 \\n"); CHECK(rd.Read(&b, &e)); CHECK(e.size() == 2);
  return 0; }'''),
 dict(id='s12-group-of-group', property='P13', needs='a group name that is itself a query listed under another group',
      breaks='a group that is itself a grouped query is replaced by its own group',
      edits=[('core/Assessment.h', 'const auto &group = it != query_to_group.end() ? it->second : query;',
              'if (it != query_to_group.end() && query_to_group.find(it->second) != query_to_group.end()) {\n      it = query_to_group.find(it->second);\n    }\n    const auto &group = it != query_to_group.end() ? it->second : query;')],
      demo=AS + '''#include <map>
int main() {
  std::vector<M> ms; ms.push_back(M::MakeFalseNegative(Ref(1, 0))); ms.push_back(M::MakeFalseNegative(Ref(2, 0)));
  std::map<int, int> g; g[1] = 2; g[2] = 3;
  std::vector<std::vector<M>> by; GroupMatchesByQueryGroup(ms, g, &by);
  CHECK(by.size() == 2);
  return 0; }'''),
 dict(id='s13-last-never-drawn', property='P16', needs='a query with more than eight matches',
      breaks='the last match of a large group is never drawn by the by-query sampler',
      edits=[('core/Bootstrapping.h', 'std::uniform_int_distribution <size_t> mdist(0, num_matches_q - 1);', 'std::uniform_int_distribution <size_t> mdist(0, num_matches_q - (num_matches_q > 8 ? 2 : 1));')],
      demo=EV + '''#include "core/Bootstrapping.h"
int main() {
  std::vector<std::vector<M>> o(1), s;
  for (int i = 0; i < 10; ++i) o[0].push_back(M::MakeFalseNegative(Ref(1, i)));
  MatchesByQuerySampler<Ref, Hyp> sampler(7);
  bool last = false;
  for (int r = 0; r < 500; ++r) { sampler(o, &s); for (const auto& m : s[0]) last |= m.GetRef().Location() == 9; }
  CHECK(last);
  return 0; }'''),
 dict(id='s14-dashes-at-end', property='P18', needs='"--" as the very last argument',
      breaks='a "--" that ends the command line is no longer the options separator but an unknown option',
      edits=[('cmd/Parser.h', 'if (arg == "--") { break; }', 'if (arg == "--" && i < argc) { break; }')],
      demo=H + '''#include "cmd/Parser.h"
int main() {
  kws::cmd::Parser p("x", "d"); std::string a; p.RegisterOptArgument("a", "h", &a);
  const char* v[] = {"x", "--"};
  CHECK(p.Parse(2, v));
  return 0; }'''),
 dict(id='s15-hyp-read-failure', property='P19', needs='hypotheses that cannot be read from the standard input',
      breaks='a failure to read the hypotheses from the standard input is reported but the run goes on',
      edits=[('tools/GenericKwsEvalTool.h', 'std::cerr << "ERROR: Failed reading from stdin!" << std::endl;\n      } else {\n        std::cerr << "ERROR: Failed reading file \\"" << hyp_filename << "\\"!"\n                  << std::endl;\n      }\n      return 1;',
              'std::cerr << "ERROR: Failed reading from stdin!" << std::endl;\n      } else {\n        std::cerr << "ERROR: Failed reading file \\"" << hyp_filename << "\\"!"\n                  << std::endl;\n        return 1;\n      }')],
      rebuild=True, sh=tool('''printf 'a 1\\n' > r; printf 'a 1 0.5\\nbad\\n' > h
"$t/SimpleKwsEval" r < h > o 2> e && exit 1
[ ! -s o ] || exit 1
exit 0
''')),
 dict(id='s16-hyps-not-filtered', property='P20', needs='a query set that covers all reference queries but not all hypothesis queries',
      breaks='hypotheses are filtered by the query set only when some reference was filtered',
      edits=[('tools/GenericKwsEvalTool.h', 'filter_events(query2group, &hyp_events);', 'if (ref_events.size() != num_ref_events) filter_events(query2group, &hyp_events);')],
      rebuild=True, sh=tool('''printf 'a 1\\n' > r; printf 'b 9 0.9\\na 1 0.5\\n' > h; printf 'a\\n' > q
"$t/SimpleKwsEval" --query_set q r h > o 2> e || exit 1
grep -qx 'gAP = 1' o || exit 1
exit 0
''')),
 dict(id='s17-sort-skipped', property='P26', needs='hypotheses already in ascending order of their score',
      breaks='hypotheses that are in ascending order are not sorted in descending order',
      edits=[('tools/GenericKwsEvalTool.h', 'if (sort_criterion == "desc") {', 'if (sort_criterion == "desc" &&\n        !(hyp_events.size() > 2 && std::is_sorted(hyp_events.begin(), hyp_events.end()))) {'),
             ],
      rebuild=True, sh=tool('''printf 'a 1\\n' > r; printf 'a 7 0.1\\na 8 0.2\\na 1 0.9\\n' > h
"$t/SimpleKwsEval" --interpolated_precision false --trapezoid_integral false r h > o 2> e || exit 1
grep -qx 'gAP = 1' o || exit 1
exit 0
''')),
 dict(id='s18-mapper-copy', property='P21', needs='two copies of a mapper that both map new strings',
      breaks='a copied mapper has its own table, so copies give different strings the same integer',
      edits=[('mapper/StringToIntMapper.h', ': impl_(other.impl_), own_(false) {}', ': impl_(new Impl(*other.impl_)), own_(true) {}')],
      demo=H + '''#include <stdexcept>
#include "mapper/StringToIntMapper.h"
int main() {
  kws::mapper::StringToIntMapper<int> a; a("x");
  kws::mapper::StringToIntMapper<int> b(a);
  const int i = a("y"), j = b("z");
  CHECK(i != j); CHECK(b("y") == i); CHECK(a("x") == b("x"));
  return 0; }'''),
 dict(id='s19-copy-error', property='P22', needs='copying a match without a hypothesis whose error was set to something else',
      breaks='a copied match without hypothesis gets a full false negative instead of the error of the original',
      edits=[('core/Match.h', 'if (other.HasHyp()) SetHyp(other.GetHyp());\n  }', 'if (other.HasHyp()) SetHyp(other.GetHyp());\n    else if (other.HasRef()) SetError(MatchError(0.0f, 1.0f));\n  }')],
      demo=EV + '''int main() {
  M m = M::MakeFalseNegative(Ref(1, 2)); m.SetError(MatchError(0.0f, 0.25f));
  M c(m); CHECK(c.GetError().FN() == 0.25f); CHECK(c == m);
  return 0; }'''),
 dict(id='s20-curve-at-point', property='P24', needs='a requested point that coincides with a point of the curve where the value changes',
      breaks='a requested point that coincides with a curve point takes the value of the next one',
      edits=[('core/Assessment.h', 'src_x[j] < dst_x[i]; ++j', 'src_x[j] <= dst_x[i] && j + 1 < src_x.size(); ++j')],
      demo=ER + '''int main() {
  std::vector<double> x{0.5, 1.0}, y{1.0, 0.25}, d{0.5}, o;
  SampleCurveAtGivenPoints(x, y, d, &o, false);
  CHECK(o.size() == 1 && o[0] == 1.0);
  return 0; }'''),
 dict(id='s21-mean-ndcg-sort', property='P14', needs='a resampled group whose matches are out of order, without collapsing',
      breaks='matches are not sorted before the mean NDCG when they are collapsed',
      edits=[('core/Assessment.h', 'double sumNDCG = 0.0;\n  for (auto matches_vector : matches_by_query) {\n    if (sort_matches) {', 'double sumNDCG = 0.0;\n  for (auto matches_vector : matches_by_query) {\n    if (sort_matches && !collapse_matches) {')],
      demo=AS + '''int main() {
  std::vector<std::vector<M>> g(1);
  g[0].push_back(M::MakeFalsePositive(Hyp(1, 5, 0.1f))); g[0].push_back(M(Ref(1, 1), Hyp(1, 1, 0.9f), MatchError(0, 0)));
  CHECK(near(ComputeMeanNDCG(g, true, true), 1.0));
  return 0; }'''),
 dict(id='s22-mndcg-collapse', property='P15', needs='--collapse_matches and --interpolated_precision given different values',
      breaks='the mean NDCG is collapsed according to another option',
      edits=[('tools/GenericKwsEvalTool.h', 'core::MeanNDCG<MatchType>(collapse_matches));', 'core::MeanNDCG<MatchType>(collapse_matches && interpolated_precision));')],
      rebuild=True, sh=tool('''printf 'a 1\\n' > r; printf 'a 9 0.5\\na 1 0.5\\n' > h
"$t/SimpleKwsEval" --interpolated_precision false r h 2> e > o || exit 1
g=$(sed -n 's/^gNDCG = //p' o); m=$(sed -n 's/^mNDCG = //p' o)
[ -n "$g" ] && [ "$g" = "$m" ] || exit 1
exit 0
''')),
 dict(id='s23-seed-zero', property='P17', needs='a zero random seed',
      breaks='a zero random seed is replaced by the time',
      edits=[('core/Bootstrapping.h', 'explicit MatchesByQuerySampler(const size_t random_seed)\n      : rng_(random_seed) {}', 'explicit MatchesByQuerySampler(const size_t random_seed)\n      : rng_(random_seed ? random_seed : __builtin_ia32_rdtsc()) {}')],
      demo=EV + '''#include "core/Bootstrapping.h"
int main() {
  std::vector<std::vector<M>> o(1);
  for (int i = 0; i < 200; ++i) o[0].push_back(M::MakeFalseNegative(Ref(1, i)));
  std::vector<std::vector<M>> a, b;
  MatchesByQuerySampler<Ref, Hyp> x(0); x(o, &a);
  for (volatile int i = 0; i < 10000000; ++i) {}
  MatchesByQuerySampler<Ref, Hyp> y(0); y(o, &b);
  CHECK(a == b);
  return 0; }'''),
 dict(id='s24-counts-nr', property='P23', needs='an error entry accumulated from one that itself stands for several references',
      breaks='adding an entry that stands for several references counts one reference only',
      edits=[('core/MatchErrorCounts.h', 'nr_ += other.NR();', 'nr_ += other.NR() > 0;')],
      demo=ER + '''int main() {
  MatchErrorCounts a(0, 0, 1, 1), b(0, 1, 2, 3); a += b;
  CHECK(a.NR() == 4); CHECK(a.NH() == 3);
  return 0; }'''),
 dict(id='s25-one-point', property='P25', needs='a curve of a single point',
      breaks='a single requested point is computed as zero divided by zero',
      edits=[('core/Assessment.h', 'if (num_points > 1) {', 'if (num_points > 0) {')],
      demo=ER + '''int main() {
  std::vector<double> x; GetEvenlyDistributedPoints01Interval(size_t(1), &x);
  for (double v : x) CHECK(v == v);
  return 0; }'''),
 dict(id='s26-ap-collapsed', property='P11', needs='the trapezoid rule over an entry that stands for several hypotheses',
      breaks='the trapezoid rule is not applied to entries that stand for several hypotheses',
      edits=[('core/Assessment.h', 'sumAP += tp * (trapezoid && i > 0 ?', 'sumAP += tp * (trapezoid && i > 0 && errors[i].NH() < 3 ?')],
      demo=ER + '''int main() {
  Cs e; e.push_back(MatchErrorCounts(0, 0, 1, 1)); e.push_back(MatchErrorCounts(2, 0, 3, 1));
  std::vector<double> p{1, 0.5};
  CHECK(near(ComputeAP(e, p, true), 0.5 * (1 + 0.75)));
  return 0; }'''),
 dict(id='s27-normalised-box', property='P08', needs='a box with a negative width',
      breaks='boxes with a negative width are silently turned around when they are read, so what was written is not what is read back',
      edits=[('core/BoundingBox.h', 'is >> bb.x >> bb.y >> bb.w >> bb.h;', 'is >> bb.x >> bb.y >> bb.w >> bb.h;\n  if (is && bb.w < 0) { bb.x += bb.w; bb.w = -bb.w; }')],
      demo=BX + '''#include <sstream>
int main() {
  BoundingBox<int> a(5, 2, -3, 4), b; std::stringstream o; o << a; o >> b;
  CHECK(a == b);
  return 0; }'''),
 dict(id='s28-other-scorer', property='P27', needs='a hypothesis that covers a third to a half of a reference',
      breaks='the second tool accepts pairs below the documented overlap',
      edits=[('tools/Icdar17KwsEval.cc', 'scorer(0.5)', 'scorer(0.34)')],
      rebuild=True, sh=tool('''printf 'a d 0 0 4 10\\n' > r; printf 'a d 0 0 10 10 1\\n' > h
"$t/Icdar17KwsEval" r h > o 2> e || exit 1
grep -qx 'gAP = 0' o || exit 1
exit 0
''')),
]
