// P16: bootstrap samples and the percentile interval.
#include "assess.h"
#include "core/Bootstrapping.h"
typedef std::vector<Ms> Gs;
typedef std::vector<IMs> IGs;
template class kws::core::MatchesByQuerySampler<Ev, SEv>;
template class kws::core::MatchesByQuerySampler<IEv, ISEv>;
template class kws::core::MatchesSampler<Ev, SEv>;
template class kws::core::MatchesSampler<IEv, ISEv>;

// one uniform draw over the groups, then one over the positions of the drawn
// group for every match of it
template <class G>
void Resample(std::default_random_engine &r, const G &in, G *out) {
  G res;
  std::uniform_int_distribution<size_t> qd(0, in.size() - 1);
  for (size_t i = 0; i < in.size(); ++i) {
    const typename G::value_type &g = in[qd(r)];
    std::uniform_int_distribution<size_t> md(0, g.size() - 1);
    typename G::value_type s;
    for (size_t j = 0; j < g.size(); ++j) s.push_back(g[md(r)]);
    res.push_back(s);
  }
  *out = res;
}
template <class C>
void Redraw(std::default_random_engine &r, const C &in, C *out) {
  C res;
  std::uniform_int_distribution<size_t> d(0, in.size() - 1);
  for (size_t i = 0; i < in.size(); ++i) res.push_back(in[d(r)]);
  *out = res;
}
typedef kws::core::MatchesByQuerySampler<Ev, SEv> GS_box;
typedef kws::core::MatchesByQuerySampler<IEv, ISEv> GS_int;
typedef kws::core::MatchesSampler<Ev, SEv> FS_box;
typedef kws::core::MatchesSampler<IEv, ISEv> FS_int;
#define SAMPLERS(N, G_, C_)                                                                               \
  PAIR(groups##N, void, (size_t seed, const G_ &in, G_ *out),                                                   \
       GS##N s(seed); s(in, out), std::default_random_engine r(seed); Resample(r, in, out)) \
  PAIR(flat##N, void, (size_t seed, const C_ &in, C_ *out),                                                     \
       FS##N s(seed); s(in, out), std::default_random_engine r(seed); Redraw(r, in, out))          \
  PAIR(again##N, void, (size_t seed, const G_ &in, G_ *out),                                                    \
       GS##N s(seed); G_ o; s(in, &o); s(in, out),                             \
       std::default_random_engine r(seed); G_ o; Resample(r, in, &o); Resample(r, in, out))
SAMPLERS(_box, Gs, Ms)
SAMPLERS(_int, IGs, IMs)

// stand-ins without any structure of their own
struct Drawn { virtual Ds operator()(size_t k, const Ds &in) const = 0; };
struct Smp {
  size_t k;
  const Drawn *draw;
  void operator()(const Ds &in, Ds *out) { *out = (*draw)(k++, in); }
};
struct Stat { virtual double operator()(const Ds &in) const = 0; };
double Interval(const Ds &in, size_t n, double alpha, const Stat &f, Smp *s, double *lo, double *hi) {
  const double v = f(in);
  Ds d;
  for (size_t i = 0; i < n; ++i) {
    Ds x;
    (*s)(in, &x);
    d.push_back(f(x) - v);
  }
  if (n == 0) {
    *lo = v;
    *hi = v;
    return v;
  }
  std::sort(d.begin(), d.end());
  size_t l = static_cast<size_t>((1 - alpha / 2) * n), u = static_cast<size_t>(alpha / 2 * n);
  if (l > n - 1) l = n - 1;
  if (u > n - 1) u = n - 1;
  *lo = v - d[l];
  *hi = v - d[u];
  return v;
}
PAIR(interval, double, (const Ds &in, size_t n, double alpha, const Stat &f, Smp *s, double *lo, double *hi),
     return kws::core::ComputePercentileBootstrapCI(in, n, alpha, [&f](const Ds &x) { return f(x); }, s, lo, hi);,
     return Interval(in, n, alpha, f, s, lo, hi);)
