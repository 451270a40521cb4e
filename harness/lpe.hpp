// Spectral lines of the long period tide generating potential (Cartwright,
// Tayler, Edden; Tamura), written down apart from the code under test.
// s h p N' p1 coefficient, and the constituent that holds the line.
#pragma once
#include "astro.hpp"
#include "fes/constituent.hpp"
namespace lpe {
struct Line { int c[5]; double a; int owner; };
static const Line kOrder2[106] = {
    {{0, 0, 0, 1, 0}, 0.02793, fes::kM0},
    {{0, 0, 0, 2, 0}, -0.00027, fes::kM0},
    {{0, 0, 2, 1, 0}, 0.00004, -1},
    {{0, 1, 0, -1, -1}, -0.00004, -1},
    {{0, 1, 0, 0, -1}, -0.00492, fes::kSa1},
    {{0, 1, 0, 0, 1}, 0.00026, -1},
    {{0, 1, 0, 1, -1}, 0.00005, -1},
    {{0, 2, -2, -1, 0}, 0.00002, -1},
    {{0, 2, -2, 0, 0}, -0.00031, -1},
    {{0, 2, 0, 0, 0}, -0.03095, fes::kSsa},
    {{0, 2, 0, 0, -2}, -0.00008, -1},
    {{0, 2, 0, 1, 0}, 0.00077, fes::kSsa},
    {{0, 2, 0, 2, 0}, 0.00017, fes::kSsa},
    {{0, 3, 0, 0, -1}, -0.00181, fes::kSta},
    {{0, 3, 0, 1, -1}, 0.00003, -1},
    {{0, 4, 0, 0, -2}, -0.00007, -1},
    {{1, -3, 1, -1, 1}, 0.00002, -1},
    {{1, -3, 1, 0, 1}, -0.00029, -1},
    {{1, -3, 1, 1, 1}, 0.00002, -1},
    {{1, -2, -1, -2, 0}, 0.00003, -1},
    {{1, -2, -1, -1, 0}, 0.00007, -1},
    {{1, -2, 1, -1, 0}, 0.00048, -1},
    {{1, -2, 1, 0, 0}, -0.00673, -1},
    {{1, -2, 1, 1, 0}, 0.00043, -1},
    {{1, -1, -1, -1, 1}, 0.00002, -1},
    {{1, -1, -1, 0, 1}, -0.00021, -1},
    {{1, -1, -1, 1, 1}, 0.00000, -1},
    {{1, -1, 0, 0, 0}, 0.00020, -1},
    {{1, -1, 1, 0, -1}, 0.00005, -1},
    {{1, 0, -1, -2, 0}, -0.00003, fes::kMm},
    {{1, 0, -1, -1, 0}, 0.00231, fes::kMm},
    {{1, 0, -1, 0, 0}, -0.03518, fes::kMm},
    {{1, 0, -1, 1, 0}, 0.00228, fes::kMm},
    {{1, 0, 1, 0, 0}, 0.00189, fes::kMm1},
    {{1, 0, 1, 1, 0}, 0.00077, fes::kMm1},
    {{1, 0, 1, 2, 0}, 0.00021, fes::kMm1},
    {{1, 1, -1, 0, -1}, 0.00018, -1},
    {{1, 2, -1, 0, 0}, 0.00049, -1},
    {{1, 2, -1, 1, 0}, 0.00024, -1},
    {{1, 2, -1, 2, 0}, 0.00004, -1},
    {{1, 3, -1, 0, -1}, 0.00003, -1},
    {{2, -4, 2, 0, 0}, -0.00011, -1},
    {{2, -3, 0, 0, 1}, -0.00038, -1},
    {{2, -3, 0, 1, 1}, 0.00002, -1},
    {{2, -2, 0, -1, 0}, -0.00042, fes::kA5},
    {{2, -2, 0, 0, 0}, -0.00582, fes::kA5},
    {{2, -2, 0, 1, 0}, 0.00037, fes::kA5},
    {{2, -2, 2, 0, 0}, 0.00004, -1},
    {{2, -1, -2, 0, 1}, -0.00004, -1},
    {{2, -1, -1, 0, 0}, 0.00003, -1},
    {{2, -1, 0, 0, -1}, 0.00007, -1},
    {{2, -1, 0, 0, 1}, -0.00020, -1},
    {{2, -1, 0, 1, 1}, -0.00004, -1},
    {{2, 0, -2, -1, 0}, 0.00015, fes::kMf1},
    {{2, 0, -2, 0, 0}, -0.00288, fes::kMf1},
    {{2, 0, -2, 1, 0}, 0.00019, fes::kMf1},
    {{2, 0, 0, 0, 0}, -0.06662, fes::kMf},
    {{2, 0, 0, 1, 0}, -0.02762, fes::kMf},
    {{2, 0, 0, 2, 0}, -0.00258, fes::kMf},
    {{2, 0, 0, 3, 0}, 0.00007, fes::kMf},
    {{2, 1, -2, 0, -1}, 0.00003, -1},
    {{2, 1, 0, 0, -1}, 0.00023, -1},
    {{2, 1, 0, 1, -1}, 0.00006, -1},
    {{2, 2, -2, 0, 0}, 0.00020, -1},
    {{2, 2, -2, 1, 0}, 0.00008, -1},
    {{2, 2, 0, 2, 0}, 0.00003, -1},
    {{3, -5, 1, 0, 1}, -0.00002, -1},
    {{3, -4, 1, 0, 0}, -0.00017, -1},
    {{3, -3, -1, 0, 1}, -0.00007, -1},
    {{3, -3, 1, 0, 1}, -0.00012, -1},
    {{3, -3, 1, 1, 1}, -0.00004, -1},
    {{3, -2, -1, -1, 0}, -0.00010, -1},
    {{3, -2, -1, 0, 0}, -0.00091, -1},
    {{3, -2, -1, 1, 0}, 0.00006, -1},
    {{3, -2, 1, 0, 0}, -0.00242, -1},
    {{3, -2, 1, 1, 0}, -0.00100, -1},
    {{3, -2, 1, 2, 0}, -0.00009, -1},
    {{3, -1, -1, 0, 1}, -0.00013, -1},
    {{3, -1, -1, 1, 1}, -0.00004, -1},
    {{3, -1, 0, 0, 0}, 0.00006, -1},
    {{3, -1, 0, 1, 0}, 0.00003, -1},
    {{3, -1, 1, 0, -1}, 0.00003, -1},
    {{3, 0, -3, 0, 0}, -0.00023, -1},
    {{3, 0, -3, 1, -1}, 0.00004, -1},
    {{3, 0, -3, 1, 1}, 0.00004, -1},
    {{3, 0, -1, 0, 0}, -0.01275, fes::kMtm},
    {{3, 0, -1, 1, 0}, -0.00528, fes::kMtm},
    {{3, 0, -1, 2, 0}, -0.00051, fes::kMtm},
    {{3, 0, 1, 2, 0}, 0.00005, -1},
    {{3, 0, 1, 3, 0}, 0.00002, -1},
    {{3, 1, -1, 0, -1}, 0.00011, -1},
    {{3, 1, -1, 1, -1}, 0.00004, -1},
    {{4, -4, 0, 0, 0}, -0.00008, -1},
    {{4, -4, 2, 0, 0}, -0.00006, -1},
    {{4, -4, 2, 1, 0}, -0.00002, -1},
    {{4, -3, 0, 0, 1}, -0.00014, -1},
    {{4, -3, 0, 1, 1}, -0.00006, -1},
    {{4, -2, -2, 0, 0}, -0.00011, -1},
    {{4, -2, 0, 0, 0}, -0.00205, fes::kMsqm},
    {{4, -2, 0, 1, 0}, -0.00085, fes::kMsqm},
    {{4, -2, 0, 2, 0}, -0.00008, fes::kMsqm},
    {{4, -1, -2, 0, 1}, -0.00003, -1},
    {{4, -1, 0, 0, -1}, 0.00003, -1},
    {{4, 0, -2, 0, 0}, -0.00169, -1},
    {{4, 0, -2, 1, 0}, -0.00070, -1},
    {{4, 0, -2, 2, 0}, -0.00006, -1},
};
static const Line kOrder3[17] = {
    {{0, 0, 1, 0, 0}, -0.00021, -1},
    {{0, 2, -1, 0, 0}, -0.00004, -1},
    {{1, -2, 0, 0, 0}, 0.00004, -1},
    {{1, 0, 0, -1, 0}, 0.00019, fes::kMm2},
    {{1, 0, 0, 0, 0}, -0.00375, fes::kMm2},
    {{1, 0, 0, 1, 0}, -0.00059, fes::kMm2},
    {{1, 0, 0, 2, 0}, 0.00005, fes::kMm2},
    {{2, -2, 1, 0, 0}, -0.00012, -1},
    {{2, 0, -1, 0, 0}, -0.00061, fes::kMf2},
    {{2, 0, -1, 1, 0}, -0.00010, fes::kMf2},
    {{3, -2, 0, 0, 0}, -0.00010, -1},
    {{3, 0, -2, 0, 0}, -0.00007, -1},
    {{3, 0, 0, 0, 0}, -0.00030, -1},
    {{3, 0, 0, 1, 0}, -0.00019, -1},
    {{3, 0, 0, 2, 0}, -0.00004, -1},
    {{4, 0, -1, 0, 0}, -0.00008, -1},
    {{4, 0, -1, 1, 0}, -0.00005, -1},
};
// Sums of the lines of each owner (index -1 -> kNone), at a date.
constexpr int kNone = 75;
struct Sums { double h2[76], h3[76]; };
inline Sums sums(int formulae, double epoch, int leap) {
  const auto a = astro::compute(formulae, epoch, leap);
  const astro::L x[5] = {a.s, a.h, a.p, -a.n, a.p1};
  Sums r;
  for (int i = 0; i < 76; ++i) r.h2[i] = r.h3[i] = 0;
  for (const auto& l : kOrder2) {
    astro::L p = 0;
    for (int i = 0; i < 5; ++i) p += l.c[i] * x[i];
    r.h2[l.owner < 0 ? kNone : l.owner] += static_cast<double>(l.a * std::cos(std::fmod(p, 360.0L) * astro::kRad));
  }
  for (const auto& l : kOrder3) {
    astro::L p = 0;
    for (int i = 0; i < 5; ++i) p += l.c[i] * x[i];
    r.h3[l.owner < 0 ? kNone : l.owner] += static_cast<double>(l.a * std::sin(std::fmod(p, 360.0L) * astro::kRad));
  }
  return r;
}
// Height in centimetres; removed(ident) tells the constituents left out.
template <typename F>
double height(const Sums& s, double lat, F removed) {
  double h2 = 0, h3 = 0;
  for (int i = 0; i < 76; ++i)
    if (i == kNone || !removed(i)) { h2 += s.h2[i]; h3 += s.h3[i]; }
  const double pi = 3.14159265358979323846, y = std::sin(lat * pi / 180);
  const double c20 = std::sqrt(5 / (4 * pi)) * (1.5 * y * y - 0.5) + 0.014432247;
  const double c30 = std::sqrt(7 / (4 * pi)) * (2.5 * y * y - 1.5) * y - 0.012469818;
  return 100 * (0.693 * c20 * h2 + 0.802 * c30 * h3);
}
}  // namespace lpe
