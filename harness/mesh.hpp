// Triangulations and the reference of the mesh checks.
//
// The edges of the triangles are taken as what lies between the straight line
// in longitude and latitude and the great circle; positions between the two
// (plus a margin) may be answered either way.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <memory>

#include "fes/mesh/index.hpp"
#include "vp.hpp"

namespace vm {
using vp::Str;
struct P { double x, y; };
struct Tri { int v[3]; };
struct Mesh {
  std::string name;
  std::vector<P> p;      // unwrapped: a triangle never jumps
  std::vector<Tri> t;
  std::vector<double> lon;  // longitudes as given to the code
};

inline double wrap(double d) { return std::remainder(d, 360.0); }

// Barycentric coordinates in the plane of longitude and latitude.
inline std::array<double, 3> planar(const Mesh& m, int k, double x, double y) {
  const P &a = m.p[m.t[k].v[0]], &b = m.p[m.t[k].v[1]], &c = m.p[m.t[k].v[2]];
  x = a.x + wrap(x - a.x);
  const double d = (b.x - a.x) * (c.y - a.y) - (c.x - a.x) * (b.y - a.y);
  const double l1 = ((x - a.x) * (c.y - a.y) - (c.x - a.x) * (y - a.y)) / d;
  const double l2 = ((b.x - a.x) * (y - a.y) - (x - a.x) * (b.y - a.y)) / d;
  return {1 - l1 - l2, l1, l2};
}
struct V3 { double x, y, z; };
inline V3 unit(double lon, double lat) {
  const double r = M_PI / 180;
  return {std::cos(lat * r) * std::cos(lon * r), std::cos(lat * r) * std::sin(lon * r), std::sin(lat * r)};
}
inline V3 cross(const V3& a, const V3& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline double dot(const V3& a, const V3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
// Same on the sphere: normalised triple products; all negative on the far side.
inline std::array<double, 3> sphere(const Mesh& m, int k, double x, double y) {
  const V3 q = unit(x, y);
  V3 v[3];
  for (int i = 0; i < 3; ++i) v[i] = unit(m.p[m.t[k].v[i]].x, m.p[m.t[k].v[i]].y);
  const double d = dot(v[0], cross(v[1], v[2]));
  if (dot(q, v[0]) < -0.2) return {-9, -9, -9};
  return {dot(q, cross(v[1], v[2])) / d, dot(q, cross(v[2], v[0])) / d, dot(q, cross(v[0], v[1])) / d};
}
inline double size_of(const Mesh& m, int k) {
  double s = 0;
  for (int i = 0; i < 3; ++i) { const P &a = m.p[m.t[k].v[i]], &b = m.p[m.t[k].v[(i + 1) % 3]]; s = std::max(s, std::max(std::fabs(a.x - b.x), std::fabs(a.y - b.y))); }
  return s;
}
inline double flat(const Mesh& m, int k) {  // height over longest side, <= 1
  const P &a = m.p[m.t[k].v[0]], &b = m.p[m.t[k].v[1]], &c = m.p[m.t[k].v[2]];
  const double d = std::fabs((b.x - a.x) * (c.y - a.y) - (c.x - a.x) * (b.y - a.y));
  const double s = size_of(m, k);
  return std::min(1.0, d / (s * s));
}
inline double thinnest(const Mesh& m) {  // smallest height of the triangles
  double r = 1e9;
  for (size_t k = 0; k < m.t.size(); ++k) r = std::min(r, flat(m, k) * size_of(m, k));
  return r;
}
// 1: inside for sure, -1: outside for sure, 0: may be either.
inline int where(const Mesh& m, int k, double x, double y) {
  const double s = size_of(m, k);
  // next to a vertex (one metre) the side of an edge is not known
  for (int i = 0; i < 3; ++i) { const P& v = m.p[m.t[k].v[i]]; if (std::fabs(wrap(x - v.x)) * std::cos(v.y * M_PI / 180) < 1e-5 && std::fabs(y - v.y) < 1e-5) return 0; }
  const double mg = std::max(1e-5, 2e-4 * s) / flat(m, k);
  const auto a = planar(m, k, x, y), b = sphere(m, k, x, y);
  const double pa = std::min(a[0], std::min(a[1], a[2])), pb = std::min(b[0], std::min(b[1], b[2]));
  if (pa > mg && pb > mg) return 1;
  if (pa < -mg && pb < -mg) return -1;
  return 0;
}

// ---------------------------------------------------------------- families
inline void quad(Mesh& m, int a, int b, int c, int d, bool slash) {
  if (slash) { m.t.push_back({{a, b, c}}); m.t.push_back({{a, c, d}}); }
  else { m.t.push_back({{a, b, d}}); m.t.push_back({{b, c, d}}); }
}
// Cartesian product of two lists of coordinates, diagonals by pattern.
inline Mesh grid(const std::string& name, const std::vector<double>& xs, const std::vector<double>& ys, int pattern) {
  Mesh m;
  m.name = name;
  const int nx = xs.size(), ny = ys.size();
  for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) m.p.push_back({xs[i], ys[j]});
  auto id = [&](int i, int j) { return i * ny + j; };
  for (int i = 0; i + 1 < nx; ++i)
    for (int j = 0; j + 1 < ny; ++j) quad(m, id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1), pattern == 0 ? true : pattern == 1 ? false : (i + j) % 2 == 0);
  return m;
}
// k triangles around a centre.
inline Mesh fan(int k, bool closed) {
  Mesh m;
  m.name = (closed ? "fan" : "open fan") + std::to_string(k);
  m.p.push_back({0, 0});
  const double span = closed ? 2 * M_PI : M_PI * 0.9;
  const int n = closed ? k : k + 1;
  for (int i = 0; i < n; ++i) m.p.push_back({std::cos(span * i / k + 0.1), std::sin(span * i / k + 0.1)});
  for (int i = 0; i < k; ++i) m.t.push_back({{0, 1 + i, 1 + (i + 1) % n}});
  return m;
}
// A large triangle with a fan of n small ones around one of its vertices (the
// small ones lie outside the large one and share only that vertex and, for the
// first and the last, part of the surroundings).
inline Mesh graded(int n, double ratio) {
  Mesh m;
  m.name = "graded" + std::to_string(n);
  // vertices: 0 = shared, 1,2 = large triangle
  m.p = {{0, 0}, {1, -0.6}, {1, 0.6}};
  m.t.push_back({{0, 1, 2}});
  const double a0 = std::atan2(0.6, 1.0) + 0.12, a1 = 2 * M_PI - a0;
  for (int i = 0; i <= n; ++i) { const double a = a0 + (a1 - a0) * i / n; m.p.push_back({ratio * std::cos(a), ratio * std::sin(a)}); }
  for (int i = 0; i < n; ++i) m.t.push_back({{0, 3 + i, 4 + i}});
  return m;
}
// A long edge with, on the other side of a gap, a cloud of small triangles.
inline Mesh islands(int n) {
  Mesh m;
  m.name = "islands" + std::to_string(n);
  m.p = {{-1, -1}, {1, -1}, {0, 0.0}};
  m.t.push_back({{0, 1, 2}});
  for (int i = 0; i < n; ++i) {
    const double cx = -0.9 + 1.8 * i / std::max(1, n - 1), cy = -1.05 - 0.02 * (i % 3);
    const int b = m.p.size();
    m.p.push_back({cx - 0.02, cy}); m.p.push_back({cx + 0.02, cy}); m.p.push_back({cx, cy - 0.03});
    m.t.push_back({{b, b + 2, b + 1}});
  }
  return m;
}
inline Mesh irregular() {
  Mesh m;
  m.name = "irregular";
  const double lon[] = {0.004, -0.175, -0.273, -0.11, 0.183, 0.256, 0.183, -0.428, -0.501, -0.371, 0.46, 0.622, 0.451, 0.313, -0.021, -0.289, -0.175, 0.077, 0.321};
  const double lat[] = {0.004, 0.264, 0.004, -0.192, -0.232, 0.012, 0.264, 0.256, -0.013, -0.24, -0.281, -0.004, 0.289, 0.459, 0.443, 0.435, -0.354, -0.363, -0.428};
  const int t[] = {0, 2, 3, 0, 3, 4, 0, 4, 5, 0, 5, 6, 0, 6, 1, 0, 1, 2, 1, 6, 14, 1, 14, 15, 1, 15, 7, 1, 7, 2, 2, 7, 8, 2, 8, 9, 2, 9, 3, 3, 9, 16, 3, 16, 17, 3, 17, 4, 4, 17, 18, 4, 18, 10, 4, 10, 5, 5, 10, 11, 5, 11, 12, 5, 12, 6, 6, 12, 13, 6, 13, 14};
  for (int i = 0; i < 19; ++i) m.p.push_back({lon[i] * 2, lat[i] * 2});
  for (int i = 0; i < 24; ++i) m.t.push_back({{t[3 * i], t[3 * i + 1], t[3 * i + 2]}});
  return m;
}
inline std::vector<Mesh> family(bool thorough) {
  std::vector<Mesh> r;
  r.push_back(grid("one quad", {-1, 1}, {-1, 1}, 0));
  for (int p = 0; p < 3; ++p) r.push_back(grid("grid3x3/" + std::to_string(p), {-1, 0, 1}, {-1, 0, 1}, p));
  r.push_back(grid("grid4x3", {-1, -0.4, 0.3, 1}, {-1, 0.2, 1}, 2));
  r.push_back(grid("geometric", {-1, -0.98, -0.94, -0.86, -0.7, -0.3, 1}, {-1, -0.97, -0.9, -0.7, -0.2, 1}, 2));
  r.push_back(grid("thin", {-1, -0.5, 0, 0.5, 1}, {0, 0.02, 0.04}, 0));
  for (int k : {3, 4, 5, 6, 8, 11, 12, 13, 16, 20}) r.push_back(fan(k, true));
  for (int k : {2, 7, 12, 18}) r.push_back(fan(k, false));
  for (int n : {3, 6, 11, 12, 24}) r.push_back(graded(n, 0.1));
  r.push_back(graded(20, 0.01));
  for (int n : {3, 7, 15}) r.push_back(islands(n));
  r.push_back(irregular());
  if (thorough) {
    for (int k : {7, 9, 10, 14, 15, 17, 24, 32}) r.push_back(fan(k, true));
    for (int n : {4, 5, 8, 9, 10, 16, 40}) for (double q : {0.3, 0.03}) r.push_back(graded(n, q));
    for (int n : {5, 9, 11, 31}) r.push_back(islands(n));
    for (int p = 0; p < 3; ++p) r.push_back(grid("grid6x5/" + std::to_string(p), {-1, -0.6, -0.2, 0.2, 0.6, 1}, {-1, -0.5, 0, 0.5, 1}, p));
  }
  return r;
}
struct Place { double lon, lat, scale; };
inline const std::vector<Place>& places() {
  static const std::vector<Place> r = {{0, 0, 1}, {0, 0, 6}, {-180, 0, 2}, {179.6, 38, 0.5}, {180, -55, 4}, {-179.99, 12, 0.02}, {359.5, -30, 1}, {100, 70, 3}, {-75.3, -81, 1}, {360, 20, 0.1}, {-178, 10, 30}, {40, 88, 1.9995}, {-170, -80, 9.9995}};
  return r;
}
// Next to a pole, or when large, the long edges of these cross others on the sphere.
inline bool overlaps(const Mesh& b, const Place& q) {
  if (std::fabs(q.lat) + q.scale > 85 && b.name.compare(0, 6, "graded") == 0) return true;
  return (q.scale > 20 || std::fabs(q.lat) + q.scale > 85) && b.name.compare(0, 7, "islands") == 0;
}
// Elements of a few metres.
inline const std::vector<Place>& tiny_places() {
  static const std::vector<Place> r = {{12, 34, 1e-4}, {-160, -47.3, 2e-5}, {0, 0, 1.2e-5}};
  return r;
}
inline Mesh place(const Mesh& b, const Place& q) {
  Mesh m = b;
  m.name += Str() << " at (" << q.lon << "," << q.lat << ") x" << q.scale;
  for (auto& p : m.p) p = {q.lon + p.x * q.scale, q.lat + p.y * q.scale};
  m.lon.clear();
  for (auto& p : m.p) m.lon.push_back(p.x);
  return m;
}
// Orientation of triangles, numbering and longitudes.
inline Mesh dress(const Mesh& b, int how) {
  Mesh m = b;
  const int n = m.p.size(), k = m.t.size();
  m.name += " dress" + std::to_string(how);
  if (how == 1) for (auto& t : m.t) std::swap(t.v[1], t.v[2]);
  if (how == 2) for (int i = 0; i < k; ++i) { auto& t = m.t[i]; if (i % 2) std::swap(t.v[0], t.v[2]); std::rotate(t.v, t.v + i % 3, t.v + 3); }
  if (how == 3) {  // vertices in the reverse order, triangles too
    std::reverse(m.p.begin(), m.p.end());
    std::reverse(m.lon.begin(), m.lon.end());
    for (auto& t : m.t) for (int& v : t.v) v = n - 1 - v;
    std::reverse(m.t.begin(), m.t.end());
  }
  if (how == 4) for (int i = 0; i < n; ++i) m.lon[i] += i % 3 == 1 ? 360 : i % 3 == 2 ? -360 : 0;
  if (how == 5) { for (double& x : m.lon) { while (x >= 360) x -= 360; while (x < 0) x += 360; } std::rotate(m.t.begin(), m.t.begin() + k / 2, m.t.end()); for (auto& t : m.t) std::rotate(t.v, t.v + 1, t.v + 3); }
  return m;
}
inline std::shared_ptr<fes::mesh::Index> index(const Mesh& m) {
  Eigen::VectorXd lon(m.p.size()), lat(m.p.size());
  for (size_t i = 0; i < m.p.size(); ++i) { lon[i] = m.lon[i]; lat[i] = m.p[i].y; }
  Eigen::Matrix<int32_t, -1, 3> t(m.t.size(), 3);
  for (size_t i = 0; i < m.t.size(); ++i) for (int j = 0; j < 3; ++j) t(i, j) = m.t[i].v[j];
  return std::make_shared<fes::mesh::Index>(lon, lat, t);
}
// Query positions: a barycentric lattice of every triangle and a frame.
inline std::vector<P> queries(const Mesh& m, int den, int frame) {
  std::vector<P> r;
  double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
  for (auto& p : m.p) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
  for (auto& t : m.t) {
    const P &a = m.p[t.v[0]], &b = m.p[t.v[1]], &c = m.p[t.v[2]];
    auto at = [&](double u, double v) { const double w = 1 - u - v; r.push_back({a.x * w + b.x * u + c.x * v, a.y * w + b.y * u + c.y * v}); };
    for (int i = 0; i <= den; ++i) for (int j = 0; i + j <= den; ++j) at(double(i) / den, double(j) / den);
    for (double e : {0.02, 0.002}) { at(e, e); at(1 - 2 * e, e); at(e, 1 - 2 * e); at(0.5 - e / 2, 0.5 - e / 2); at(e, 0.5); at(0.5, e); }
  }
  const double mx = (x1 - x0) * 0.3, my = (y1 - y0) * 0.3;
  for (int i = 0; i <= frame; ++i)
    for (int j = 0; j <= frame; ++j) r.push_back({x0 - mx + (x1 - x0 + 2 * mx) * i / frame, y0 - my + (y1 - y0 + 2 * my) * j / frame});
  r.push_back({x0 + 180, 0});
  return r;
}
}  // namespace vm
