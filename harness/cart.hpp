// Reference for models defined on a Cartesian grid.
#pragma once
#include <memory>

#include "fes/tidal_model/cartesian.hpp"
#include "vp.hpp"

namespace cart {
using cd = std::complex<double>;
using vp::Str;

struct Line {  // an axis as a user describes it
  int n;
  double start, step;
  bool circ;
  double at(int i) const { return start + i * step; }
  fes::Axis axis() const {
    Eigen::VectorXd p(n);
    for (int i = 0; i < n; ++i) p[i] = at(i);
    return fes::Axis(p, 1e-6, circ);
  }
  std::string str() const { return Str() << "n=" << n << " start=" << start << " step=" << step << (circ ? " circular" : ""); }
  uint64_t hash() const { return vp::mix(vp::mix(vp::bits(start), vp::bits(step)), n * 2 + circ); }
};

// One way to see v inside a cell: nodes a, b and weight of b.
struct Cell { int a, b; double w; };

inline std::vector<Cell> cells(const Line& l, double v, double tol) {
  std::vector<Cell> r;
  double t = (v - l.start) / l.step;
  const double turn = 360.0 / std::fabs(l.step);
  if (l.circ) { t -= turn * std::floor(t / turn); }
  const double e = tol / std::fabs(l.step);
  auto add = [&](int k, double w) {
    if (l.circ) r.push_back({((k % l.n) + l.n) % l.n, (k + 1) % l.n, std::min(1.0, std::max(0.0, w))});
    else if (k >= 0 && k + 1 < l.n) r.push_back({k, k + 1, std::min(1.0, std::max(0.0, w))});
  };
  int k = static_cast<int>(std::floor(t));
  double f = t - k;
  add(k, f);
  if (f < e) add(k - 1, 1);
  if (f > 1 - e) add(k + 1, 0);
  return r;
}
// 0 outside, 1 inside, 2 too close to the border to tell
inline int inside(const Line& l, double v, double tol) {
  if (v != v) return 0;
  if (l.circ) return 1;
  double lo = std::min(l.at(0), l.at(l.n - 1)), hi = std::max(l.at(0), l.at(l.n - 1));
  if (v < lo - tol || v > hi + tol) return 0;
  if (v > lo + tol && v < hi - tol) return 1;
  return 2;
}

template <typename T>
struct Model {
  Line lon, lat;
  bool major;
  fes::tidal_model::Cartesian<T> m;
  std::map<fes::Constituent, std::vector<cd>> nodes;  // [i*nlat+j]
  std::unique_ptr<fes::Accelerator> acc;
  Model(const Line& x, const Line& y, bool mj, fes::TideType tt = fes::kTide) : lon(x), lat(y), major(mj), m(x.axis(), y.axis(), tt, mj) {}
  template <typename F>
  void add(fes::Constituent id, F f) {
    fes::Vector<std::complex<T>> v(lon.n * lat.n);
    std::vector<cd> ref(lon.n * lat.n);
    for (int i = 0; i < lon.n; ++i)
      for (int j = 0; j < lat.n; ++j) {
        std::complex<T> z(f(i, j));
        v[major ? i * lat.n + j : j * lon.n + i] = z;
        ref[i * lat.n + j] = cd(z);
      }
    m.add_constituent(id, v);
    nodes[id] = ref;
  }
  const fes::ConstituentValues& at(double x, double y, fes::Quality& q) {
    if (!acc) acc.reset(m.accelerator(fes::angle::Formulae::kMeeus, 0.0));
    q = static_cast<fes::Quality>(99);
    return m.interpolate(fes::geometry::Point(x, y), q, acc.get());
  }
  cd node(fes::Constituent id, int i, int j) const { return nodes.at(id)[i * lat.n + j]; }
};

inline cd irregular(int i, int j, int salt) {
  uint64_t h = vp::mix(vp::mix(i + 1, j + 1), salt);
  return cd(static_cast<double>(h % 2001) / 100.0 - 10.0, static_cast<double>((h >> 20) % 2001) / 100.0 - 10.0);
}
}  // namespace cart
