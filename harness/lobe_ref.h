// Published formula of each lobe, written from its documentation, as a function of the input coordinates and of
// the parameters of one channel (in the order in which the class documents them).
#pragma once
#include <cmath>
static double rmax(double a, double b) { return a > b ? a : b; }
static double clamp01(double x) { return x < 0.0 ? 0.0 : (x > 1.0 ? 1.0 : x); }
struct Dir { double v[3], l[3], h[3], k[3], lv, lr, hv, kz; };
static Dir dirs(const double* x) {
  Dir d; double nh = 0, nk = 0;
  for(int i = 0; i < 3; ++i) { d.v[i] = x[i]; d.l[i] = x[3 + i]; d.h[i] = d.v[i] + d.l[i]; d.k[i] = i < 2 ? d.l[i] - d.v[i] : d.l[i] + d.v[i]; nh += d.h[i] * d.h[i]; nk += d.k[i] * d.k[i]; }
  nh = std::sqrt(nh); nk = std::sqrt(nk);
  for(int i = 0; i < 3; ++i) { d.h[i] /= nh; d.k[i] /= nk; }
  d.lv = d.v[0] * d.l[0] + d.v[1] * d.l[1] + d.v[2] * d.l[2];
  d.lr = d.v[2] * d.l[2] - d.v[0] * d.l[0] - d.v[1] * d.l[1];
  d.hv = d.h[0] * d.v[0] + d.h[1] * d.v[1] + d.h[2] * d.v[2];
  return d;
}
static double gauss_lobe(double ks, double a, double c) { return ks * std::exp(-(1.0 - c * c) / (c * c) / (a * a)) / (4.0 * M_PI * a * a * c * c * c * c); }
static double walter(double a, double cosine) {
  double tangent = std::sqrt(1.0 - cosine * cosine) / cosine, c = 1.0 / (a * tangent);
  return c >= 1.6 ? 1.0 : (3.535 * c + 2.181 * c * c) / (1.0 + 2.276 * c + 2.577 * c * c);
}
// p(i): i-th parameter of channel y
template<class P> static double reference(const double* x, const P& p, int variant) {
  (void)variant;
#if defined(LOBE_blinn) || defined(LOBE_retroblinn)
  return x[0] > 0.0 ? p(0) * std::pow(x[0], p(1)) : 0.0;
#elif defined(LOBE_abc)
  return x[0] >= 0.0 ? p(0) / std::pow(1.0 + p(1) * (1.0 - x[0]), p(2)) : 0.0;
#elif defined(LOBE_diffuse)
  return p(0);
#elif defined(LOBE_lafortune)
  double r = 0.0;
  for(int n = 0; n < (variant == 1 ? 2 : 1); ++n) { double d = p(4 * n) * x[0] * x[3] + p(4 * n + 1) * x[1] * x[4] + p(4 * n + 2) * x[2] * x[5]; if(d > 0.0) r += std::pow(d, p(4 * n + 3)); }
  return r;
#elif defined(LOBE_isotropic_lafortune)
  double r = 0.0;
  for(int n = 0; n < (variant == 1 ? 2 : 1); ++n) { double d = p(3 * n) * (x[0] * x[3] + x[1] * x[4]) + p(3 * n + 1) * x[2] * x[5]; if(d > 0.0) r += std::pow(d, p(3 * n + 2)); }
  return r;
#elif defined(LOBE_spherical_gaussian)
  Dir d = dirs(x); double c = variant == 0 ? d.lr : variant == 1 ? d.h[2] : variant == 2 ? d.k[2] : d.lv;
  return p(0) * std::exp(p(1) * (c - 1.0));
#elif defined(LOBE_beckmann)
  return x[2] * x[5] > 0.0 ? gauss_lobe(p(0), p(1), dirs(x).h[2]) : 0.0;
#elif defined(LOBE_retrobeckmann)
  Dir d = dirs(x); double c = variant == 0 ? d.k[2] : d.lv;
  return c > 0.0 ? gauss_lobe(p(0), p(1), c) : 0.0;
#elif defined(LOBE_ward)
  Dir d = dirs(x); double a = d.h[0] / p(1), b = d.h[1] / p(2);
  return x[2] * x[5] > 0.0 ? p(0) / (4.0 * M_PI * p(1) * p(2) * std::sqrt(x[2] * x[5])) * std::exp(-(a * a + b * b) / (d.h[2] * d.h[2])) : 0.0;
#elif defined(LOBE_fresnel_schlick)
  return p(0) + (1.0 - p(0)) * std::pow(1.0 - clamp01(dirs(x).hv), 5.0);
#elif defined(LOBE_fresnel_normalized_schlick)
  return (p(0) + (1.0 - p(0)) * std::pow(1.0 - clamp01(dirs(x).hv), 5.0)) / p(0);
#elif defined(LOBE_fresnel_retroschlick)
  Dir d = dirs(x); double c = d.k[2] * d.v[2] - d.k[0] * d.v[0] - d.k[1] * d.v[1];
  return p(0) + (1.0 - p(0)) * std::pow(1.0 - c, 5.0);
#elif defined(LOBE_shadowing_schlick)
  return x[2] / (x[2] + p(0) * (1.0 - x[2])) * (x[5] / (x[5] + p(0) * (1.0 - x[5])));
#elif defined(LOBE_shadowing_smith)
  double mu = x[5] / std::sqrt(x[3] * x[3] + x[4] * x[4]), r = mu / p(0);
  return x[2] == 1.0 ? 1.0 : 1.0 / (1.0 + std::exp(-r * r / 2.0) / (r * std::sqrt(2.0 * M_PI)) - 0.5 * (1.0 - std::erf(r / std::sqrt(2.0))));
#elif defined(LOBE_shadowing_walter_smith)
  Dir d = dirs(x); double hl = d.h[0] * d.l[0] + d.h[1] * d.l[1] + d.h[2] * d.l[2];
  return d.hv / x[2] > 0.0 && hl / x[5] > 0.0 ? walter(p(0), x[2]) * walter(p(0), x[5]) : 0.0;
#elif defined(LOBE_sgd)
  // p: c, theta0, k, lambda, p, F0, F1, K, rho_d, rho_s, alpha
  Dir d = dirs(x); double c2 = d.h[2] * d.h[2], t2 = (1.0 - c2) / c2, ax = p(10) + t2 / p(10);
  double hl = d.h[0] * d.l[0] + d.h[1] * d.l[1] + d.h[2] * d.l[2];
  double D = p(7) * std::exp(-ax) / std::pow(ax, p(4)) / (M_PI * c2 * c2);
  double F = p(5) - hl * p(6) + (1.0 - p(5)) * std::pow(1.0 - hl, 5.0);
  double G = 1.0;
  for(int i = 0; i < 2; ++i) G *= 1.0 + p(3) * (1.0 - std::exp(p(0) * std::pow(rmax(std::acos(i ? x[5] : x[2]) - p(1), 0.0), p(2))));
  return (p(8) + p(9) * D * F * G) / M_PI;
#endif
}
