// Reference of a prediction: each constituent enters exactly once.
#pragma once
#include "admit.hpp"
#include "fes/tide.hpp"
#include "golden.hpp"
#include "lpe.hpp"
namespace predict {
using Cx = std::complex<double>;
inline fes::Constituent C(int i) { return static_cast<fes::Constituent>(i); }

// Factor and argument of every constituent at a date (decided by C18).
struct Terms {
  double f[75], vu[75];
  lpe::Sums sums;
};
inline const Terms& terms(int formulae, double epoch, int leap) {
  static std::map<std::tuple<int, double, int>, Terms> memo;
  auto key = std::make_tuple(formulae, epoch, leap);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  if (memo.size() > 4000) memo.clear();
  Terms t;
  const fes::angle::Astronomic a(static_cast<fes::angle::Formulae>(formulae), epoch, static_cast<uint16_t>(leap));
  for (int i = 0; i < 75; ++i) {
    auto w = fes::wave::Table::wave_factory(C(i));
    w->nodal_a(a);
    w->nodal_g(a);
    t.f[i] = w->f();
    t.vu[i] = w->v() + w->u();
  }
  t.sums = lpe::sums(formulae, epoch, leap);
  return memo[key] = t;
}
struct Result { double h, lp; };
// values[i]: what the model gives for i at the position (0 when not provided).
inline Result tide(const Terms& t, double lat, bool ocean, const std::vector<Cx>& values, const std::set<int>& provided,
                   const std::set<int>& excluded, const std::set<int>& declared, bool undefined) {
  auto dyn = [&](int i) { return declared.count(i) > 0 || (provided.count(i) > 0 && !excluded.count(i)); };
  auto inferred = [&](int i) { return golden::table()[i].admittance && !dyn(i); };
  std::vector<Cx> v(75, Cx(0, 0));
  for (int i : provided) v[i] = values[i];
  admit::apply(v, inferred);
  Result r;
  r.h = 0;
  r.lp = ocean ? lpe::height(t.sums, lat, dyn) : 0;
  if (undefined) {
    r.h = std::numeric_limits<double>::quiet_NaN();
    return r;
  }
  for (int i = 0; i < 75; ++i) {
    if (!dyn(i) && !inferred(i)) continue;
    const double x = t.f[i] * (v[i].real() * std::cos(t.vu[i]) + v[i].imag() * std::sin(t.vu[i]));
    (golden::table()[i].short_period ? r.h : r.lp) += x;
  }
  return r;
}
}  // namespace predict
