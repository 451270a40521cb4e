// Linear rules of inference by admittance, written down apart from the code:
// coefficient of each major constituent in each inferable one.
#pragma once
#include <complex>
#include <map>
#include <vector>
#include "fes/constituent.hpp"
namespace admit {
using C = std::complex<double>;
struct Rule { int target; std::vector<std::pair<int, double>> terms; };
// In order: 2N2 comes before those that use it.
inline const std::vector<Rule>& rules() {
  using namespace fes;
  static const std::vector<Rule> r = {
      {k2Q1, {{kQ1, 0.263}, {kO1, -0.0252}}},
      {kSigma1, {{kQ1, 0.297}, {kO1, -0.0264}}},
      {kRho1, {{kQ1, 0.164}, {kO1, 0.0048}}},
      {kM11, {{kO1, 0.0389}, {kK1, 0.0282}}},
      {kM12, {{kO1, 0.0140}, {kK1, 0.0101}}},
      {kChi1, {{kO1, 0.0064}, {kK1, 0.0060}}},
      {kPi1, {{kO1, 0.0030}, {kK1, 0.0171}}},
      {kPhi1, {{kO1, -0.0015}, {kK1, 0.0152}}},
      {kTheta1, {{kO1, -0.0065}, {kK1, 0.0155}}},
      {kJ1, {{kO1, -0.0389}, {kK1, 0.0836}}},
      {kOO1, {{kO1, -0.0431}, {kK1, 0.0613}}},
      {k2N2, {{kN2, 0.264}, {kM2, -0.0253}}},
      {kEps2, {{k2N2, 0.53285}, {kN2, -0.03304}}},
      {kEta2, {{kM2, -0.0034925}, {kK2, 0.0831707}}},
      {kMu2, {{kK2, 0.069439968323}, {kN2, 0.351535557706}, {kM2, -0.046278307672}}},
      {kNu2, {{kK2, -0.006104695053}, {kN2, 0.156878802427}, {kM2, 0.006755704028}}},
      {kLambda2, {{kK2, 0.016503557465}, {kN2, -0.013307812292}, {kM2, 0.007753383202}}},
      {kL2, {{kK2, 0.077137765667}, {kN2, -0.051653455134}, {kM2, 0.027869916824}}},
      {kT2, {{kK2, 0.180480173707}, {kN2, -0.020101177502}, {kM2, 0.008331518844}}},
  };
  return r;
}
// Applies the rules to values[75]; flag(i): constituent i is inferred.
template <typename F>
void apply(std::vector<C>& values, F flag) {
  for (const auto& r : rules()) {
    if (!flag(r.target)) continue;
    C s = 0;
    for (const auto& t : r.terms) s += t.second * values[t.first];
    values[r.target] = s;
  }
}
}  // namespace admit
