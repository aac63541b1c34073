#include "match.h"
template class kws::core::Match<Ev, SEv>;
PAIR(nh, size_t, (float fp, float fn), return ME(fp, fn).NH(), if (fp <= 0 && fn >= 1) return 0; return 1)
PAIR(nr, size_t, (float fp, float fn), return ME(fp, fn).NR(), if (fn <= 0 && fp >= 1) return 0; return 1)
PAIR(error_fp, float, (float fp, float fn), return ME(fp, fn).FP(), return fp)
PAIR(error_fn, float, (float fp, float fn), return ME(fp, fn).FN(), return fn)
PAIR(error_default_fp, float, (), return ME().FP(), return 0)
PAIR(error_default_fn, float, (), return ME().FN(), return 0)
PAIR(error_eq, bool, (const ME& a, const ME& b), return a == b, return a.FP() == b.FP() && a.FN() == b.FN())
PAIR(error_ne, bool, (const ME& a, const ME& b), return a != b, return !(a.FP() == b.FP() && a.FN() == b.FN()))
PAIR(counts_fp, float, (float fp, float fn, size_t nh, size_t nr), return MEC(fp, fn, nh, nr).FP(), return fp)
PAIR(counts_fn, float, (float fp, float fn, size_t nh, size_t nr), return MEC(fp, fn, nh, nr).FN(), return fn)
PAIR(counts_nh, size_t, (float fp, float fn, size_t nh, size_t nr), return MEC(fp, fn, nh, nr).NH(), return nh)
PAIR(counts_nr, size_t, (float fp, float fn, size_t nh, size_t nr), return MEC(fp, fn, nh, nr).NR(), return nr)
PAIR(counts_base_nh, size_t, (float fp, float fn, size_t nh, size_t nr), MEC c(fp, fn, nh, nr); const ME& m = c; return m.NH(), return nh)
PAIR(counts_base_nr, size_t, (float fp, float fn, size_t nh, size_t nr), MEC c(fp, fn, nh, nr); const ME& m = c; return m.NR(), return nr)
PAIR(counts_default_fp, float, (), return MEC().FP(), return 0)
PAIR(counts_default_fn, float, (), return MEC().FN(), return 0)
PAIR(counts_default_nh, size_t, (), return MEC().NH(), return 0)
PAIR(counts_default_nr, size_t, (), return MEC().NR(), return 0)
PAIR(counts_from_fp, float, (const ME& m), return MEC(m).FP(), return m.FP())
PAIR(counts_from_fn, float, (const ME& m), return MEC(m).FN(), return m.FN())
PAIR(counts_from_nh, size_t, (const ME& m), return MEC(m).NH(), return m.NH())
PAIR(counts_from_nr, size_t, (const ME& m), return MEC(m).NR(), return m.NR())
PAIR(counts_eq, bool, (const MEC& a, const MEC& b), return a == b, return a.FP() == b.FP() && a.FN() == b.FN() && a.NH() == b.NH() && a.NR() == b.NR())
PAIR(counts_ne, bool, (const MEC& a, const MEC& b), return a != b, return !(a.FP() == b.FP() && a.FN() == b.FN() && a.NH() == b.NH() && a.NR() == b.NR()))
PAIR(counts_plus, MEC, (const MEC& a, const MEC& b), return a + b, return MEC(a.FP() + b.FP(), a.FN() + b.FN(), a.NH() + b.NH(), a.NR() + b.NR()))
PAIR(counts_add, MEC, (const MEC& a, const ME& b), MEC c = a; c += b; return c, return MEC(a.FP() + b.FP(), a.FN() + b.FN(), a.NH() + b.NH(), a.NR() + b.NR()))
PAIR(counts_add_counts, MEC, (const MEC& a, const MEC& b), MEC c = a; c += b; return c, return MEC(a.FP() + b.FP(), a.FN() + b.FN(), a.NH() + b.NH(), a.NR() + b.NR()))
PAIR(counts_add_self, MEC, (const MEC& a), MEC c = a; c += c; return c, return MEC(a.FP() + a.FP(), a.FN() + a.FN(), a.NH() + a.NH(), a.NR() + a.NR()))
// named constructors
PAIR(fp_error, ME, (const SEv& h), return M::MakeFalsePositive(h).GetError(), return ME(1, 0))
PAIR(fp_hyp, SEv, (const SEv& h), return M::MakeFalsePositive(h).GetHyp(), return h)
PAIR(fp_hashyp, bool, (const SEv& h), return M::MakeFalsePositive(h).HasHyp(), return true)
PAIR(fp_hasref, bool, (const SEv& h), return M::MakeFalsePositive(h).HasRef(), return false)
PAIR(fn_error, ME, (const Ev& r), return M::MakeFalseNegative(r).GetError(), return ME(0, 1))
PAIR(fn_ref, Ev, (const Ev& r), return M::MakeFalseNegative(r).GetRef(), return r)
PAIR(fn_hasref, bool, (const Ev& r), return M::MakeFalseNegative(r).HasRef(), return true)
PAIR(fn_hashyp, bool, (const Ev& r), return M::MakeFalseNegative(r).HasHyp(), return false)
PAIR(pair_error, ME, (const Ev& r, const SEv& h, const ME& e), return M(r, h, e).GetError(), return e)
PAIR(pair_ref, Ev, (const Ev& r, const SEv& h, const ME& e), return M(r, h, e).GetRef(), return r)
PAIR(pair_hyp, SEv, (const Ev& r, const SEv& h, const ME& e), return M(r, h, e).GetHyp(), return h)
PAIR(error_only, ME, (float fp, float fn), return M(fp, fn).GetError(), return ME(fp, fn))
PAIR(error_only_ref, bool, (float fp, float fn), M m(fp, fn); return m.HasRef() || m.HasHyp(), return false)
PAIR(set_error, ME, (float fp, float fn, const ME& e), M m(fp, fn); m.SetError(e); return m.GetError(), return e)
