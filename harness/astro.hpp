// Independent transcription of the astronomical formulae (degrees, long
// double), and of Schureman's nodal quantities.
#pragma once
#include <cmath>
#include <stdexcept>
#include <string>

#include "golden.hpp"

namespace astro {
using L = long double;
constexpr L kPi = 3.14159265358979323846264338327950288L;
constexpr L kRad = kPi / 180;
inline L dms(L d, L m, L s) { return d + m / 60 + s / 3600; }
inline L mod(L x, L y) { L r = std::fmod(x, y); return r < 0 ? r + y : r; }

struct Angles {
  L t, s, h, p, n, p1;  // degrees
  L I, xi, nu, nup, nus, x1ra, r, P;  // radians
};

enum { kOrder1, kOrder3, kMeeus };

inline Angles compute(int formulae, double epoch, int leap) {
  Angles a;
  if (formulae == kMeeus) {
    const L T = (L(epoch) + leap + 32.184L - 946728000.0L) / 3155760000.0L, T2 = T * T, T3 = T2 * T, T4 = T3 * T;
    a.n = 125.0445479L - 1934.1362891L * T + 0.0020754L * T2 + T3 / 467441 - T4 / 60616000;
    a.s = 218.3164477L + 481267.88123421L * T - 0.0015786L * T2 + T3 / 538841 - T4 / 65194000;
    const L D = 297.8501921L + 445267.1114034L * T - 0.0018819L * T2 + T3 / 545868 - T4 / 113065000;
    const L M = 357.5291092L + 35999.0502909L * T - 0.0001536L * T2 + T3 / 24490000;
    a.h = a.s - D;
    a.p1 = a.h - M;
    a.p = 83.3532465L + 4069.0137287L * T - 0.0103200L * T2 - T3 / 80053 + T4 / 18999000;
  } else {
    const L T = (L(epoch) / 86400 + 25567.5L) / 36525, o = formulae == kOrder3 ? 1 : 0, T2 = o * T * T, T3 = T2 * T;
    a.n = dms(259, 10, 57.12L) - (1800 + 482912.63L / 3600) * T + 7.58L / 3600 * T2 + 0.008L / 3600 * T3;
    a.h = dms(279, 41, 48.04L) + 129602768.13L / 3600 * T + 1.089L / 3600 * T2;
    a.s = dms(270, 26, 14.72L) + (1336 * 360 + 1108411.20L / 3600) * T + 9.09L / 3600 * T2 + 0.0068L / 3600 * T3;
    a.p1 = dms(281, 13, 15.0L) + 6189.03L / 3600 * T + 1.63L / 3600 * T2 + 0.012L / 3600 * T3;
    a.p = dms(334, 19, 40.87L) + (11 * 360 + 392515.94L / 3600) * T - 37.24L / 3600 * T2 - 0.045L / 3600 * T3;
  }
  const L hours = mod(L(epoch), 86400) / 3600;
  a.t = 180 + 15 * hours;
  const L N = mod(a.n, 360) * kRad;
  a.I = std::acos(0.91370L - 0.03569L * std::cos(N));
  // xi and nu are odd in N and vanish at 0 and 180
  const L M = N > kPi ? N - 2 * kPi : N;
  const L a1 = std::atan2(1.01883L * std::sin(M / 2), std::cos(M / 2)), a2 = std::atan2(0.64412L * std::sin(M / 2), std::cos(M / 2));
  a.xi = M - a1 - a2;
  a.nu = a1 - a2;
  a.P = mod(a.p, 360) * kRad - a.xi;
  const L t2 = std::pow(std::tan(a.I / 2), 2);
  a.x1ra = std::sqrt(1 - 12 * t2 * std::cos(2 * a.P) + 36 * t2 * t2);
  a.r = std::atan(std::sin(2 * a.P) / (1 / (6 * t2) - std::cos(2 * a.P)));
  a.nup = std::atan(std::sin(2 * a.I) * std::sin(a.nu) / (std::sin(2 * a.I) * std::cos(a.nu) + 0.3347L));
  const L q = std::pow(std::sin(a.I), 2);
  a.nus = std::atan(q * std::sin(2 * a.nu) / (q * std::cos(2 * a.nu) + 0.0727L)) / 2;
  return a;
}

inline L factor(const std::string& k, const Angles& a) {
  const L I = a.I, c2 = std::cos(I / 2), s2 = std::sin(I / 2), si = std::sin(I), s2i = std::sin(2 * I);
  if (k == "1") return 1;
  if (k == "mm") return (2.0L / 3 - si * si) / 0.5021L;
  if (k == "mf") return si * si / 0.1578L;
  if (k == "o1") return si * c2 * c2 / 0.3800L;
  if (k == "j1") return s2i / 0.7214L;
  if (k == "oo1") return si * s2 * s2 / 0.0164L;
  if (k == "m2") return std::pow(c2, 4) / 0.9154L;
  if (k == "m3") return std::pow(c2, 6) / 0.8758L;
  if (k == "79") return si * si / 0.1565L;
  if (k == "141") return (si - 1.25L * si * si * si) / 0.3192L;
  if (k == "k1") return std::sqrt(0.8965L * s2i * s2i + 0.6001L * s2i * std::cos(a.nu) + 0.1006L);
  if (k == "k2") return std::sqrt(19.0444L * std::pow(si, 4) + 2.7702L * si * si * std::cos(2 * a.nu) + 0.0981L);
  if (k == "m1") return factor("o1", a) * std::sqrt(2.310L + 1.435L * std::cos(2 * a.P));
  if (k == "l2") return factor("m2", a) * a.x1ra;
  if (k == "m22") return std::pow(factor("m2", a), 2);
  if (k == "m23") return std::pow(factor("m2", a), 3);
  if (k == "m24") return std::pow(factor("m2", a), 4);
  if (k == "m2_k2") return factor("m2", a) * factor("k2", a);
  if (k == "m2_k1") return factor("m2", a) * factor("k1", a);
  if (k == "m2_o1") return factor("m2", a) * factor("o1", a);
  if (k == "m22_k1") return factor("m22", a) * factor("k1", a);
  if (k == "m22_k2") return factor("m22", a) * factor("k2", a);
  if (k == "m23_k2") return factor("m23", a) * factor("k2", a);
  throw std::logic_error(k);
}
// radians
inline L V(const golden::Item& g, const Angles& a) {
  return (g.v[0] * a.t + g.v[1] * a.s + g.v[2] * a.h + g.v[3] * a.p + g.v[4] * a.p1 + 90 * g.shift) * kRad;
}
inline L u(const golden::Item& g, const Angles& a) {
  L r = g.u[0] * a.xi + g.u[1] * a.nu + g.u[2] * a.nup + g.u[3] * a.nus;
  if (g.ident == 33) r -= a.r;  // L2
  if (g.ident == 12) {          // M13 (Schureman's M1): -nu - Qu, Qu = P - Q, tan Q = 0.483 tan P
    const L Q = std::atan2(0.483L * std::sin(a.P), std::cos(a.P));
    r -= std::remainder(a.P - Q, 2 * kPi);
  }
  return r;
}
inline L f(const golden::Item& g, const Angles& a) { return factor(g.f, a); }
// difference of two angles in radians, in (-pi, pi]
inline double adiff(L x, L y) { return static_cast<double>(std::remainder(x - y, 2 * kPi)); }
}  // namespace astro
