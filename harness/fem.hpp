// Finite element models over the triangulations of mesh.hpp, and their values.
#pragma once
#include <map>

#include "fes/tidal_model/lgp.hpp"
#include "mesh.hpp"

namespace fem {
using namespace vm;
using Cx = std::complex<double>;

// Node j of triangle k: vertices, or vertices and middles in alternation.
inline P node(const Mesh& m, int k, int j, int N) {
  if (N == 1) return m.p[m.t[k].v[j]];
  const P &a = m.p[m.t[k].v[j / 2]], &b = m.p[m.t[k].v[(j / 2 + 1) % 3]];
  return j % 2 ? P{(a.x + b.x) / 2, (a.y + b.y) / 2} : a;
}
// Lagrange basis from barycentric coordinates.
inline std::vector<double> basis(const std::array<double, 3>& l, int N) {
  if (N == 1) return {l[0], l[1], l[2]};
  return {l[0] * (2 * l[0] - 1), 4 * l[0] * l[1], l[1] * (2 * l[1] - 1), 4 * l[1] * l[2], l[2] * (2 * l[2] - 1), 4 * l[2] * l[0]};
}

template <typename T, int N>
using Lgp = typename std::conditional<N == 1, fes::tidal_model::LGP1<T>, fes::tidal_model::LGP2<T>>::type;

// field 0: linear (LGP1) or linear (LGP2); 1: quadratic; 2: arbitrary nodal values
template <typename T, int N>
struct Model {
  const Mesh& m;
  int field;
  size_t n = 3;
  Eigen::Matrix<int, -1, 3 * N> codes;
  std::vector<std::vector<std::complex<T>>> data;
  std::shared_ptr<Lgp<T, N>> model;
  mutable std::unique_ptr<fes::Accelerator> acc;
  double cx, cy, sc;

  Model(const Mesh& mm, int f, double max_distance, fes::TideType tt = fes::kTide) : m(mm), field(f) {
    cx = cy = 0;
    for (auto& p : m.p) { cx += p.x / m.p.size(); cy += p.y / m.p.size(); }
    sc = 1e-9;
    for (auto& p : m.p) sc = std::max(sc, std::max(std::fabs(p.x - cx), std::fabs(p.y - cy)));
    codes.resize(m.t.size(), 3 * N);
    std::map<std::pair<int, int>, int> ids;
    std::vector<P> where_;
    // codes are given in an order of their own
    for (size_t k = m.t.size(); k-- > 0;)
      for (int j = 0; j < 3 * N; ++j) {
        int a, b;
        if (N == 1) a = b = m.t[k].v[j];
        else { a = m.t[k].v[j / 2]; b = j % 2 ? m.t[k].v[(j / 2 + 1) % 3] : a; }
        const auto key = std::make_pair(std::min(a, b), std::max(a, b));
        auto it = ids.find(key);
        if (it == ids.end()) { it = ids.emplace(key, int(where_.size())).first; where_.push_back(node(m, k, j, N)); }
        codes(k, j) = it->second;
      }
    data.resize(n);
    const fes::Constituent ids3[3] = {fes::kM2, fes::kK1, fes::kMm};
    model = std::make_shared<Lgp<T, N>>(index(m), codes, tt, max_distance);
    for (size_t c = 0; c < n; ++c) {
      fes::Vector<std::complex<T>> w(where_.size());
      for (size_t i = 0; i < where_.size(); ++i) {
        const Cx z = field < 2 ? poly(where_[i].x, where_[i].y, c) : Cx(std::sin(i * 2.7 + c * 1.1) * 20, std::cos(i * 1.9 - c) * 13);
        w[i] = std::complex<T>(T(z.real()), T(z.imag()));
        data[c].push_back(w[i]);
      }
      model->add_constituent(ids3[c], w);
    }
    order = {2, 1, 0};
    std::sort(order.begin(), order.end(), [&](int a, int b) { return ids3[a] < ids3[b]; });
    acc.reset(model->accelerator(fes::angle::Formulae::kSchuremanOrder1, 0));
  }
  std::vector<int> order;
  Cx poly(double x, double y, size_t c) const {
    const double u = wrap(x - cx) / sc, v = (y - cy) / sc;
    Cx r = Cx(3 + c, -2) + Cx(5, 1.5 - c) * u + Cx(-1 - 2.0 * c, 4) * v;
    if (field == 1) r += Cx(2, 3) * u * u + Cx(-4, c + 1.0) * u * v + Cx(1.5, -2.5) * v * v;
    return r;
  }
  Cx at_node(int k, int j, size_t c) const { return Cx(data[c][codes(k, j)]); }
  Cx value(int k, double x, double y, size_t c) const {
    const auto b = basis(planar(m, k, x, y), N);
    Cx r = 0;
    for (int j = 0; j < 3 * N; ++j) r += b[j] * at_node(k, j, c);
    return r;
  }
  double tol(int k) const { return (sizeof(T) == 4 ? 2e-5 : 1e-8) + 1e-10 / (size_of(m, k) * flat(m, k)); }
  // values in the order of the constituents of data
  std::vector<Cx> at(double x, double y, fes::Quality& q) const { return at(x, y, q, acc.get()); }
  std::vector<Cx> at(double x, double y, fes::Quality& q, fes::Accelerator* a) const {
    const auto& got = model->interpolate({x, y}, q, a);
    std::vector<Cx> r(got.size());
    if (got.size() != n) return r;
    for (size_t i = 0; i < n; ++i) r[order[i]] = got[i].second;
    return r;
  }
};
}  // namespace fem
