// P24: curves are sampled, averaged and written completely.
#include "assess.h"
#include "matcher/SimpleMatcher.h"
#include "mapper/IdentityMapper.h"
#include "reader/PlainTextReader.h"
#include "tools/GenericKwsEvalTool.h"
using namespace kws::core;
typedef kws::reader::PlainTextReader<Ev> RR;
typedef kws::reader::PlainTextReader<SEv> HR;
typedef kws::matcher::SimpleMatcher<Ev, SEv> Mt;
typedef kws::mapper::IdentityMapper<std::string> Mp;
typedef kws::tools::GenericKwsEvalTool<RR, HR, Mt, Mp> Tool;
typedef std::vector<M> MList;
typedef std::vector<MList> MGroups;

// value of the curve (x, y) at position p: first point not before p
static double At(const Ds &x, const Ds &y, size_t j, double p, bool linear) {
  if (j == x.size()) return 0;
  if (!linear || j == 0) return y[j];
  const double left = p - x[j - 1], right = x[j] - p;
  const double w = right / (left + right);
  return y[j - 1] * w + y[j] * (1 - w);
}
static void Sampled(const Ds &x, const Ds &y, const Ds &at, Ds *out, bool linear) {
  Ds r;
  size_t j = 0;
  for (size_t i = 0; i < at.size(); ++i) {
    while (j < x.size() && x[j] < at[i]) ++j;
    r.push_back(At(x, y, j, at[i], linear));
  }
  *out = r;
}
static void Even(size_t n, Ds *out) {
  out->clear();
  if (n < 2) return;
  for (size_t k = 0; k < n; ++k) out->push_back(double(k) / double(n - 1));
}
static void Written(const std::string &name, const Ds &x, const Ds &y) {
  if (name.empty()) throw std::invalid_argument("name");
  if (x.size() != y.size()) throw std::invalid_argument("sizes");
  std::ofstream f;
  f.exceptions(std::ofstream::badbit | std::ofstream::failbit);
  f.open(name);
  for (size_t i = 0; i < x.size(); ++i) f << std::scientific << x[i] << " " << y[i] << "\n";
  f.close();
}
static void Global(const std::string &name, const MList &m, size_t n, bool c, bool i, bool linear) {
  Ds pr, rc, at, v;
  ComputePrecisionAndRecall(m, c, i, &pr, &rc);
  GetEvenlyDistributedPoints01Interval(n, &at);
  SampleCurveAtGivenPoints(rc, pr, at, &v, linear);
  WriteCurveToFile(name, at, v);
}
static void Mean(const std::string &name, const MGroups &g, size_t n, bool c, bool i, bool linear) {
  Ds at, mean;
  GetEvenlyDistributedPoints01Interval(n, &at);
  std::vector<Ds> curves;
  for (size_t q = 0; q < g.size(); ++q) {
    Ds pr, rc, v;
    ComputePrecisionAndRecall(g[q], c, i, &pr, &rc);
    SampleCurveAtGivenPoints(rc, pr, at, &v, linear);
    curves.push_back(v);
  }
  for (size_t k = 0; k < at.size(); ++k) {
    double s = 0;
    for (size_t q = 0; q < g.size(); ++q) s += curves[q][k];
    mean.push_back(g.empty() ? 0 : s / g.size());
  }
  WriteCurveToFile(name, at, mean);
}

PAIR(sample, void, (const Ds &x, const Ds &y, const Ds &at, Ds *out, bool linear),
     SampleCurveAtGivenPoints(x, y, at, out, linear), Sampled(x, y, at, out, linear))
PAIR(even, void, (size_t n, Ds *out), GetEvenlyDistributedPoints01Interval(n, out), Even(n, out))
PAIR(written, void, (const std::string &f, const Ds &x, const Ds &y), WriteCurveToFile(f, x, y), Written(f, x, y))
PAIR(global, void, (const std::string &f, const MList &m, size_t n, bool c, bool i, bool l),
     Tool::WriteGlobalRPCurve(f, m, n, c, i, l), Global(f, m, n, c, i, l))
PAIR(mean, void, (const std::string &f, const MGroups &m, size_t n, bool c, bool i, bool l),
     Tool::WriteMeanRPCurve(f, m, n, c, i, l), Mean(f, m, n, c, i, l))
