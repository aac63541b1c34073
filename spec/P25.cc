// P25: entry points of the metric code. There is no reference: every element
// access and division met on the way has to be safe on its path.
#include "assess.h"
#include "core/Bootstrapping.h"
#include "core/Statistic.h"
#include "mapper/IdentityMapper.h"
#include "matcher/SimpleMatcher.h"
#include "reader/PlainTextReader.h"
#include "tools/GenericKwsEvalTool.h"
using namespace kws::core;
typedef std::vector<Ms> Gs;
typedef std::vector<IMs> IGs;
typedef kws::reader::PlainTextReader<Ev> RR;
typedef kws::reader::PlainTextReader<SEv> HR;
typedef kws::tools::GenericKwsEvalTool<RR, HR, kws::matcher::SimpleMatcher<Ev, SEv>, kws::mapper::IdentityMapper<std::string>> Tool;
template class kws::core::MatchesSampler<Ev, SEv>;
template class kws::core::MatchesByQuerySampler<Ev, SEv>;
typedef std::map<std::string, std::string> Names;
typedef std::map<int32_t, int32_t> Numbers;
struct Draw { virtual void operator()(const Ds &in, Ds *out) = 0; };
struct Stat { virtual double operator()(const Ds &in) const = 0; };
#define COMMA ,
#define USE(name, params, code) \
  void name##__code params { code; }
USE(precision_recall_errors, (const Es &e, bool i, Ds *p, Ds *r), ComputePrecisionAndRecall(e, i, p, r))
USE(precision_recall_counts, (const Cs &e, bool i, Ds *p, Ds *r), ComputePrecisionAndRecall(e, i, p, r))
USE(precision_recall_matches, (const Ms &e, bool c, bool i, Ds *p, Ds *r), ComputePrecisionAndRecall(e, c, i, p, r))
USE(precision_recall_floats, (const Es &e, bool i, Fs *p, Fs *r), ComputePrecisionAndRecall(e, i, p, r))
USE(ap_errors, (const Es &e, const Ds &p, bool t), if (p.size() == e.size()) ComputeAP<double>(e, p, t))
USE(ap_counts, (const Cs &e, const Ds &p, bool t), if (p.size() == e.size()) ComputeAP<double>(e, p, t))
USE(ap_curve, (const Ds &p, const Ds &r, bool t), if (p.size() == r.size()) ComputeAP(p, r, t))
USE(ndcg_errors, (const Es &e), ComputeNDCG<double>(e))
USE(ndcg_counts, (const Cs &e), ComputeNDCG<double>(e))
USE(collapse, (const Ms &m), CollapseMatches(m))
USE(collapse_int, (const IMs &m), CollapseMatches(m))
USE(errors, (const Ms &m), GetMatchErrors(m))
USE(sort, (Ms *m), SortMatchesDecreasingScore(m))
USE(sort_int, (IMs *m), SortMatchesDecreasingScore(m))
USE(group, (const Ms &m, const Names &n, Gs *g), GroupMatchesByQueryGroup(m, n, g))
USE(group_int, (const IMs &m, const Numbers &n, IGs *g), GroupMatchesByQueryGroup(m, n, g))
USE(global_ap, (const Ms &m, bool c, bool i, bool t), ComputeGlobalAP(m, c, i, t))
USE(global_ap_groups, (const Gs &m, bool c, bool i, bool t, bool s), ComputeGlobalAP(m, c, i, t, s))
USE(mean_ap, (const Gs &m, bool c, bool i, bool t, bool s), ComputeMeanAP(m, c, i, t, s))
USE(global_ndcg, (const Ms &m, bool c), ComputeGlobalNDCG(m, c))
USE(global_ndcg_groups, (const Gs &m, bool c, bool s), ComputeGlobalNDCG(m, c, s))
USE(mean_ndcg, (const Gs &m, bool c, bool s), ComputeMeanNDCG(m, c, s))
USE(sample_matches, (size_t seed, const Ms &in, Ms *out), MatchesSampler<Ev COMMA SEv> s(seed); s(in, out))
USE(sample_groups, (size_t seed, const Gs &in, Gs *out), MatchesByQuerySampler<Ev COMMA SEv> s(seed); s(in, out))
USE(interval, (const Ds &in, size_t n, double alpha, const Stat &f, Draw *s, double *lo, double *hi),
    ComputePercentileBootstrapCI(in, n, alpha, [&f](const Ds &x) { return f(x); }, s, lo, hi))
USE(points, (size_t n, Ds *x), GetEvenlyDistributedPoints01Interval(n, x))
USE(sample_curve, (const Ds &x, const Ds &y, size_t n, Ds *out, bool l), if (x.size() != y.size()) return; Ds at;
    GetEvenlyDistributedPoints01Interval(n, &at); SampleCurveAtGivenPoints(x, y, at, out, l))
USE(sample_curve_at, (const Ds &x, const Ds &y, const Ds &at, Ds *out), if (x.size() == y.size()) SampleCurveAtGivenPoints(x, y, at, out, false))
USE(write_curve, (const std::string &f, const Ds &x, const Ds &y), WriteCurveToFile(f, x, y))
USE(mean_curve, (const std::string &f, const Gs &m, size_t n, bool c, bool i, bool l), Tool::WriteMeanRPCurve(f, m, n, c, i, l))
USE(global_curve, (const std::string &f, const Ms &m, size_t n, bool c, bool i, bool l), Tool::WriteGlobalRPCurve(f, m, n, c, i, l))
