// Small tidal models of every kind, with what their interpolation must give.
#pragma once
#include <complex>
#include <memory>

#include "fes/tidal_model/cartesian.hpp"
#include "fes/tidal_model/lgp.hpp"
#include "fes/tide.hpp"
#include "mesh.hpp"

namespace md {
using vp::Str;
using Cx = std::complex<double>;
using fes::Constituent;

inline fes::Axis axis(double start, double step, int n, bool circular) {
  Eigen::VectorXd v(n);
  for (int i = 0; i < n; ++i) v[i] = start + step * i;
  return fes::Axis(v, 1e-6, circular);
}
// Kinds of grids: 0 regional, 1 global circular, 2 descending latitudes and longitudes, latitude-major
struct Grid { fes::Axis lon, lat; bool row_major; };
inline Grid grid(int kind) {
  if (kind == 1) return {axis(0, 90, 4, true), axis(-60, 60, 3, false), true};
  if (kind == 2) return {axis(14, -2, 3, false), axis(5, -1.5, 4, false), false};
  return {axis(10, 1, 3, false), axis(-2, 0.5, 2, false), true};
}
inline vm::Mesh mesh(int kind) {
  vm::Mesh m = kind == 1 ? vm::irregular() : kind == 2 ? vm::fan(12, true) : vm::grid("quad", {-1, 1}, {-1, 1}, 0);
  if (kind == 2) m = vm::place(m, {179.7, -30, 1});
  return vm::dress(vm::place(m, {0, 0, 1}), kind == 2 ? 4 : 0);
}
struct At { double x, y; int node; };  // node: index of the data found there

template <typename M> struct Make;
template <typename T>
struct Make<fes::tidal_model::Cartesian<T>> {
  using Model = fes::tidal_model::Cartesian<T>;
  using Value = T;
  static std::string name(int kind) { return Str() << (sizeof(T) == 4 ? "grid/float " : "grid/double ") << kind; }
  static Model make(int kind, fes::TideType t, double) { const Grid g = grid(kind); return Model(g.lon, g.lat, t, g.row_major); }
  static int size(int kind) { const Grid g = grid(kind); return int(g.lon.size() * g.lat.size()); }
  static std::vector<At> nodes(int kind) {
    const Grid g = grid(kind);
    std::vector<At> r;
    const int nx = g.lon.size(), ny = g.lat.size();
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) r.push_back({g.lon(i), g.lat(j), g.row_major ? i * ny + j : j * nx + i});
    return r;
  }
};
template <typename M, typename T, int N>
struct MakeMesh {
  using Model = M;
  using Value = T;
  static std::string name(int kind) { return Str() << "LGP" << N << (sizeof(T) == 4 ? "/float " : "/double ") << kind; }
  static void codes(const vm::Mesh& m, Eigen::Matrix<int, -1, 3 * N>& c, std::vector<At>* at) {
    c.resize(m.t.size(), 3 * N);
    const int nv = m.p.size();
    std::map<std::pair<int, int>, int> ids;
    for (size_t k = 0; k < m.t.size(); ++k)
      for (int j = 0; j < 3; ++j) {
        const int v = m.t[k].v[j], w = m.t[k].v[(j + 1) % 3];
        c(k, N * j) = nv - 1 - v;
        if (N == 2) {
          const auto key = std::make_pair(std::min(v, w), std::max(v, w));
          const auto it = ids.emplace(key, nv + int(ids.size())).first;
          c(k, 2 * j + 1) = it->second;
        }
        if (at) at->push_back({m.p[v].x, m.p[v].y, nv - 1 - v});
      }
  }
  static Model make(int kind, fes::TideType t, double max_distance) {
    const auto m = mesh(kind);
    Eigen::Matrix<int, -1, 3 * N> c;
    codes(m, c, nullptr);
    return Model(vm::index(m), c, t, max_distance);
  }
  static int size(int kind) {
    Eigen::Matrix<int, -1, 3 * N> c;
    codes(mesh(kind), c, nullptr);
    return c.maxCoeff() + 1;
  }
  static std::vector<At> nodes(int kind) {
    std::vector<At> r;
    Eigen::Matrix<int, -1, 3 * N> c;
    codes(mesh(kind), c, &r);
    return r;
  }
};
template <typename T> struct Make<fes::tidal_model::LGP1<T>> : MakeMesh<fes::tidal_model::LGP1<T>, T, 1> {};
template <typename T> struct Make<fes::tidal_model::LGP2<T>> : MakeMesh<fes::tidal_model::LGP2<T>, T, 2> {};

template <typename T>
fes::Vector<std::complex<T>> wave(int n, int seed) {
  fes::Vector<std::complex<T>> w(n);
  for (int i = 0; i < n; ++i) w[i] = std::complex<T>(T(seed + 0.25 * i), T(-3 + 0.5 * ((i * 7 + seed) % 11)));
  return w;
}
template <typename T>
bool same_wave(const fes::Vector<std::complex<T>>& a, const fes::Vector<std::complex<T>>& b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); ++i) if (!vp::same(a[i].real(), b[i].real()) || !vp::same(a[i].imag(), b[i].imag())) return false;
  return true;
}
}  // namespace md
