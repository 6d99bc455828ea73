/* Stand-in for NLopt. */
#pragma once
#include <cstring>
#include "../fit_stub.h"
enum nlopt_algorithm { NLOPT_GN_DIRECT = 0, NLOPT_GN_CRS2_LM, NLOPT_GD_STOGO, NLOPT_GN_ISRES, NLOPT_LN_COBYLA, NLOPT_LN_BOBYQA, NLOPT_LN_NEWUOA_BOUND, NLOPT_LN_PRAXIS, NLOPT_LN_NELDERMEAD, NLOPT_LN_SBPLX, NLOPT_LD_MMA, NLOPT_LD_SLSQP };
enum nlopt_result { NLOPT_FAILURE = -1, NLOPT_INVALID_ARGS = -2, NLOPT_OUT_OF_MEMORY = -3, NLOPT_ROUNDOFF_LIMITED = -4, NLOPT_FORCED_STOP = -5, NLOPT_SUCCESS = 1, NLOPT_STOPVAL_REACHED = 2, NLOPT_FTOL_REACHED = 3, NLOPT_XTOL_REACHED = 4, NLOPT_MAXEVAL_REACHED = 5, NLOPT_MAXTIME_REACHED = 6 };
typedef double (*nlopt_func)(unsigned n, const double* x, double* gradient, void* data);
struct nlopt_opt_s : Objective { nlopt_algorithm alg; nlopt_func f; void* data; int maxeval; double xtol_rel, ftol_rel, ftol_abs, xtol_abs; double* bounds;
  bool gradient() const { return alg == NLOPT_LD_MMA || alg == NLOPT_LD_SLSQP || alg == NLOPT_GD_STOGO; }
  bool eval(const double* p, double* y, double* jac) { y[0] = f((unsigned)n, p, gradient() ? jac : 0, data); return true; } };
typedef nlopt_opt_s* nlopt_opt;
void last_options(nlopt_opt o);
inline nlopt_opt nlopt_create(nlopt_algorithm a, unsigned n) { nlopt_opt o = new nlopt_opt_s; o->n = (int)n; o->m = 1; o->scalar = true; o->alg = a; o->f = 0; o->data = 0; o->maxeval = 0; o->xtol_rel = o->ftol_rel = o->ftol_abs = o->xtol_abs = 0; o->bounds = new double[2 * n]; return o; }
inline nlopt_result nlopt_set_lower_bounds(nlopt_opt o, const double* b) { for(int i = 0; i < o->n; ++i) o->bounds[i] = b[i]; o->lo = o->bounds; return NLOPT_SUCCESS; }
inline nlopt_result nlopt_set_upper_bounds(nlopt_opt o, const double* b) { for(int i = 0; i < o->n; ++i) o->bounds[o->n + i] = b[i]; o->hi = o->bounds + o->n; return NLOPT_SUCCESS; }
inline nlopt_result nlopt_set_maxeval(nlopt_opt o, int n) { o->maxeval = n; return NLOPT_SUCCESS; }
inline nlopt_result nlopt_set_xtol_rel(nlopt_opt o, double v) { o->xtol_rel = v; return NLOPT_SUCCESS; }
inline nlopt_result nlopt_set_ftol_rel(nlopt_opt o, double v) { o->ftol_rel = v; return NLOPT_SUCCESS; }
inline nlopt_result nlopt_set_ftol_abs(nlopt_opt o, double v) { o->ftol_abs = v; return NLOPT_SUCCESS; }
inline nlopt_result nlopt_set_xtol_abs1(nlopt_opt o, double v) { o->xtol_abs = v; return NLOPT_SUCCESS; }
inline nlopt_result nlopt_set_maxtime(nlopt_opt, double) { return NLOPT_SUCCESS; }
inline nlopt_result nlopt_set_min_objective(nlopt_opt o, nlopt_func f, void* data) { o->f = f; o->data = data; return NLOPT_SUCCESS; }
inline nlopt_result nlopt_optimize(nlopt_opt o, double* x, double* f) { o->x = x; last_options(o); nlopt_result r = (nlopt_result)solver_run(*o); *f = r > 0 ? o->f((unsigned)o->n, x, 0, o->data) : 0.0; return r; }
inline void nlopt_destroy(nlopt_opt o) { delete[] o->bounds; delete o; }
