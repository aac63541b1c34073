// P15: every option governs what it documents.
#define CURVES
#include "tool.h"
RUN(measures, "RegisterArgument 0,RegisterOptArgument 0,collapse_matches,interpolated_precision,trapezoid_integral,bootstrap_ci_gap,bootstrap_ci_map,bootstrap_ci_gndcg,bootstrap_ci_mndcg,bootstrap_samples,bootstrap_seed,bootstrap_alpha")
RUN(curves, "RegisterArgument 0,output_grp,output_mrp,rp_curve_samples,collapse_matches,interpolated_precision,trapezoid_integral")
