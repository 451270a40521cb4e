// C07: interpolation on fully defined grids against the bilinear definition.
#include "cart.hpp"
using namespace cart;
using vp::R;

template <typename T>
static void compare(Model<T>& m, double x, double y, double tol) {
  const double pt = 1e-9;
  R.transition();
  auto where = [&]() { return Str() << "lon(" << m.lon.str() << ") lat(" << m.lat.str() << ") lon-major=" << m.major << (sizeof(T) == 4 ? " float" : " double") << " at (" << x << "," << y << "): "; };
  fes::Quality q;
  const auto& got = m.at(x, y, q);
  const int in = std::min(inside(m.lat, y, pt), inside(m.lon, x, pt)) == 0 ? 0 : (inside(m.lat, y, pt) == 2 || inside(m.lon, x, pt) == 2) ? 2 : 1;
  if (got.size() != m.nodes.size()) return R.fail("count", where() << got.size() << " values");
  if (in == 0) return;  // C08
  if (in == 2 && q == fes::kUndefined) { R.outcome("border"); return; }
  if (q != fes::kInterpolated) return R.fail("quality", where() << "quality " << int(q));
  R.outcome("interpolated");
  size_t k = 0;
  const auto cx = cells(m.lon, x, pt), cy = cells(m.lat, y, pt);
  for (const auto& item : m.nodes) {
    if (got[k].first != item.first) return R.fail("order", where() << "constituent " << int(got[k].first) << " at rank " << k);
    bool ok = cx.empty() || cy.empty();
    cd want;
    bool range = false;
    for (auto& a : cx)
      for (auto& b : cy) {
        cd z11 = m.node(item.first, a.a, b.a), z12 = m.node(item.first, a.a, b.b), z21 = m.node(item.first, a.b, b.a), z22 = m.node(item.first, a.b, b.b);
        want = (1 - a.w) * ((1 - b.w) * z11 + b.w * z12) + a.w * ((1 - b.w) * z21 + b.w * z22);
        if (vp::closec(got[k].second, want, tol)) ok = true;
        auto mm = [&](double p, double q2, double r, double s, double v) { return v >= std::min(std::min(p, q2), std::min(r, s)) - tol && v <= std::max(std::max(p, q2), std::max(r, s)) + tol; };
        if (mm(z11.real(), z12.real(), z21.real(), z22.real(), got[k].second.real()) && mm(z11.imag(), z12.imag(), z21.imag(), z22.imag(), got[k].second.imag())) range = true;
      }
    if (!ok) return R.fail(range ? "value" : "value-out-of-range", where() << "constituent " << int(item.first) << " = " << got[k].second << " instead of " << want);
    ++k;
  }
}

template <typename T>
static Model<T> make(const Line& lon, const Line& lat, bool major) {
  Model<T> m(lon, lat, major);
  m.add(fes::kM2, [&](int i, int j) { return irregular(i, j, 1); });
  m.add(fes::kK1, [&](int i, int j) { return irregular(i, j, 2); });
  // linear in latitude and (regional) longitude
  m.add(fes::kSsa, [&](int i, int j) { return lon.circ ? cd(0.5 * lat.at(j), -lat.at(j)) : cd(0.25 * lon.at(i) + lat.at(j), lon.at(i) - 0.5 * lat.at(j)); });
  R.trace();
  return m;
}

template <typename T>
static void grid(const Line& lon, const Line& lat, bool major, const std::vector<double>& FX, const std::vector<double>& FY, int turns) {
  if (!R.begin("cells")) return;
  R.note("cells lon(" + lon.str() + ") lat(" + lat.str() + ")");
  R.sample("lon(" + lon.str() + ") lat(" + lat.str() + ") all cells x positions x turns");
  auto m = make<T>(lon, lat, major);
  for (int i = -1; i < lon.n; ++i)
    for (int j = -1; j < lat.n; ++j)
      for (double u : FX)
        for (double v : FY) {
          R.state(vp::mix(vp::mix(vp::mix(lon.hash(), lat.hash()), vp::mix(i * 64 + j, major * 16 + sizeof(T))), vp::mix(vp::bits(u), vp::bits(v))));
          for (int t = -turns; t <= turns; ++t) {
            if (!lon.circ && t) continue;
            compare<T>(m, lon.at(i) + u * lon.step + 360.0 * t, lat.at(j) + v * lat.step, 1e-7);
          }
        }
}

template <typename T>
static void nodes(const Line& lon, bool major, int stride) {
  if (!R.begin("nodes")) return;
  R.note("nodes lon(" + lon.str() + ")");
  auto m = make<T>(lon, {2, 10.0, -20.0, false}, major);
  R.sample("every node of lon(" + lon.str() + ") x turns x spellings of the longitude");
  for (int i = 0; i < lon.n; i += stride) {
    R.state(vp::mix(lon.hash(), i * 2 + major));
    for (int t = -2; t <= 2; ++t)
      for (double y : {10.0, -10.0, 0.0}) {
        double x = lon.at(i) + 360.0 * t;
        for (double s : {x, std::round(x * 1e10) / 1e10, std::round(x * 1e6) / 1e6, vp::up(x), vp::down(x), x + 1e-11, x - 1e-11, static_cast<double>(static_cast<float>(x))})
          if (std::fabs(s - x) < 1e-3 * std::fabs(lon.step)) compare<T>(m, s, y, 1e-3);
      }
  }
}

static void run() {
  const std::vector<double> F = {0, 1e-9, 0.25, 0.5, 0.625, 1 - 1e-9};
  const std::vector<double> G = {0, 0.3, 0.5, 1 - 1e-9};
  const std::vector<Line> lats = {{3, -90, 90, false}, {3, 90, -90, false}, {4, 40.5, 0.5, false}, {5, -10, -0.1, false}, {2, 0.0, 1.0 / 3, false}};
  std::vector<Line> lons;
  for (int n : {2, 3, 4, 5, 6, 8, 12})
    for (double s : {0.0, -180.0, 180.0, 20.5, 359.0})
      for (int d : {1, -1}) lons.push_back({n, s, d * 360.0 / n, true});
  for (double s : {0.0, -10.0, 350.0, 1.0 / 3, 170.0})
    for (double st : {1.0, -1.0, 0.1, -0.1, 0.5, 30.0, -30.0, 1.0 / 30, 100.0}) lons.push_back({4, s, st, false});
  int k = 0;
  for (auto& x : lons)
    for (auto& y : lats)
      for (int major = 0; major < 2; ++major) {
        ++k;
        grid<double>(x, y, major, F, G, 2);
        if (R.thorough() || k % 3 == 0 || x.n == 3) grid<float>(x, y, major, F, G, 1);
      }
  // grids of some metres to some hundred metres
  for (double st : {5e-4, -5e-4, 1e-4, -1e-4})
    for (double start : {0.0, -10.0, 170.0, 359.9998})
      for (double la : {40.0, -0.0002, 89.9})
        for (double lst : {5e-4, -1e-4, 0.25})
          for (int major = 0; major < 2; ++major) {
            if (la == 89.9 && lst == 0.25) continue;
            grid<double>({4, start, st, false}, {3, la, lst, false}, major, F, G, 1);
          }
  std::vector<int> ns = {360, 3600, 5760, 36, 72, 1080, 7, 11, 90};
  if (R.thorough()) for (int n : {720, 1440, 2880, 10800, 700, 999, 1001, 1536}) ns.push_back(n);
  for (int n : ns)
    for (double s : {0.0, -180.0, 180.0, 0.05, -179.95, 1.0 / 32, 359.9, 20.0, -0.1})
      for (int d : {1, -1})
        for (int major = 0; major < 2; ++major) nodes<double>({n, s, d * 360.0 / n, true}, major, R.thorough() ? 1 : (n > 1000 ? 3 : 1));
}
VP_MAIN(run)
