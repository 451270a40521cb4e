// C08: grids with undefined nodes, every pattern of undefined nodes of a cell,
// for one and several constituents, every position class of the cell.
#include "cart.hpp"
#include "fes/tide.hpp"
using namespace cart;
using vp::R;

static const fes::Constituent ids[3] = {fes::kM2, fes::kK1, fes::kMf};

static cd hole(int kind, cd z) {
  switch (kind) {
    case 0: return {vp::kNaN, vp::kNaN};
    case 1: return {vp::kNaN, z.imag()};
    case 2: return {z.real(), vp::kNaN};
    case 3: return {vp::kInf, z.imag()};
    default: return {z.real(), -vp::kInf};
  }
}
static bool defined(cd z) { return std::isfinite(z.real()) && std::isfinite(z.imag()); }
static bool undef(cd z) { return z.real() != z.real() && z.imag() != z.imag(); }

// What one candidate cell says of a constituent.
struct Want { int n; double w; cd value, lo, hi; };
template <typename T>
static Want want(const Model<T>& m, fes::Constituent id, const Cell& a, const Cell& b) {
  Want r{0, 0, 0, cd(vp::kInf, vp::kInf), cd(-vp::kInf, -vp::kInf)};
  cd sum = 0;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) {
      cd z = m.node(id, i ? a.b : a.a, j ? b.b : b.a);
      double w = (i ? a.w : 1 - a.w) * (j ? b.w : 1 - b.w);
      if (!defined(z)) continue;
      ++r.n;
      r.w += w;
      sum += w * z;
      r.lo = cd(std::min(r.lo.real(), z.real()), std::min(r.lo.imag(), z.imag()));
      r.hi = cd(std::max(r.hi.real(), z.real()), std::max(r.hi.imag(), z.imag()));
    }
  if (r.w > 0) r.value = sum / r.w;
  return r;
}

template <typename T>
static void compare(Model<T>& m, double x, double y) {
  const double pt = 1e-9, tol = 1e-6;
  R.transition();
  auto where = [&]() {
    Str s;
    s << "lon(" << m.lon.str() << ") lat(" << m.lat.str() << ") at (" << x << "," << y << "), nodes";
    for (auto& it : m.nodes) { s << " " << int(it.first) << ":"; for (auto& z : it.second) s << (defined(z) ? "." : "x"); }
    s << ": ";
    return s;
  };
  fes::Quality q;
  const auto& got = m.at(x, y, q);
  if (got.size() != m.nodes.size()) return R.fail("count", where() << got.size() << " values for " << m.nodes.size() << " constituents");
  const int ix = inside(m.lon, x, pt), iy = inside(m.lat, y, pt);
  bool all_undef = q == fes::kUndefined;
  for (auto& g : got) all_undef = all_undef && undef(g.second);
  if (x != x || ix == 0 || iy == 0) {
    R.outcome("outside");
    if (!all_undef) R.fail("outside", where() << "position outside the grid: quality " << int(q) << " first value " << got[0].second);
    return;
  }
  if ((ix == 2 || iy == 2) && all_undef) return;
  const auto cx = cells(m.lon, x, pt), cy = cells(m.lat, y, pt);
  std::string why = "?";
  bool ok = false;
  for (auto& a : cx)
    for (auto& b : cy) {
      bool good = true;
      int worst = 4;
      bool contrib = true, sure = true, mixed = false;
      int first_n = -1;
      size_t k = 0;
      for (const auto& item : m.nodes) {
        Want w = want(m, item.first, a, b);
        cd g = got[k++].second;
        int n = w.n;
        if (first_n >= 0 && n != first_n) mixed = true;
        first_n = n;
        worst = std::min(worst, n);
        if (w.n == 0 || w.w == 0) {
          contrib = false;
          if (!undef(g) && !(w.n && g.real() >= w.lo.real() - tol && g.real() <= w.hi.real() + tol && g.imag() >= w.lo.imag() - tol && g.imag() <= w.hi.imag() + tol)) { good = false; why = Str() << "constituent " << int(item.first) << " = " << g << " without any defined node"; }
          if (!undef(g)) sure = false;
        } else if (w.w < 1e-8) {
          // next to an undefined node: the weights are not known to that precision
          sure = false;
          if (!undef(g) && !(g.real() >= w.lo.real() - tol && g.real() <= w.hi.real() + tol && g.imag() >= w.lo.imag() - tol && g.imag() <= w.hi.imag() + tol)) { good = false; why = Str() << "constituent " << int(item.first) << " = " << g << " outside the range of the defined nodes"; }
          if (undef(g)) contrib = false;
        } else if (!vp::closec(g, w.value, tol * 10 / std::min(1.0, w.w * 1e4))) {
          good = false;
          why = Str() << "constituent " << int(item.first) << " = " << g << " instead of " << w.value;
        }
      }
      if (good) {
        // quality
        if (!contrib && sure) { if (q != 0) { good = false; why = Str() << "quality " << int(q) << " for an undefined value"; } }
        else if (!contrib) { bool u = false; for (auto& g : got) u = u || undef(g.second); if (u && q != 0) { good = false; why = Str() << "quality " << int(q) << " for an undefined value"; } }
        else if (!mixed) { if (q != worst) { good = false; why = Str() << "quality " << int(q) << " with " << worst << " defined nodes"; } }
        else if (q > worst || q < 1) { good = false; why = Str() << "quality " << int(q) << " when the worst constituent has " << worst << " defined nodes"; }
      }
      if (good) ok = true;
    }
  R.outcome("quality " + std::to_string(int(q)));
  if (!ok && !cx.empty() && !cy.empty()) R.fail(why.find("quality") != std::string::npos ? "quality" : "value", where() << why);
}

struct Pos { double u, v; };

template <typename T>
static void pattern(const Line& lon, const Line& lat, bool major, int ci, int cj, const std::vector<int>& masks, int kind, bool others_undefined) {
  if (!R.begin("patterns")) return;
  R.note(Str() << "patterns lon(" << lon.str() << ") lat(" << lat.str() << ") masks " << masks[0]);
  Model<T> m(lon, lat, major);
  uint64_t h = vp::mix(lon.hash(), lat.hash());
  for (size_t c = 0; c < masks.size(); ++c) {
    h = vp::mix(h, masks[c] * 64 + kind * 8 + others_undefined * 4 + major * 2 + sizeof(T) / 8);
    m.add(ids[c], [&](int i, int j) {
      cd z = irregular(i, j, 7 + c);
      int di = (i - ci + lon.n) % lon.n, dj = j - cj;
      if (di <= 1 && (dj == 0 || dj == 1)) return (masks[c] >> (di * 2 + dj)) & 1 ? z : hole(kind, z);
      return others_undefined ? hole(kind, z) : z;
    });
  }
  R.state(vp::mix(h, ci * 100 + cj));
  R.trace();
  if (masks.size() > 1) R.sample(Str() << "lon(" << lon.str() << ") lat(" << lat.str() << ") cell (" << ci << "," << cj << ") defined-node masks " << masks[0] << "," << masks[1] << " hole kind " << kind);
  for (double u : {0.0, 1e-12, 0.25, 0.5, 0.75, 1 - 1e-12, 1.0, 0.999})
    for (double v : {0.0, 1e-12, 0.4, 0.5, 0.999, 1.0}) compare<T>(m, lon.at(ci) + u * lon.step, lat.at(cj) + v * lat.step);
}

template <typename T>
static void outside(const Line& lon, const Line& lat, bool major) {
  if (!R.begin("outside")) return;
  Model<T> m(lon, lat, major);
  m.add(ids[0], [&](int i, int j) { return irregular(i, j, 3); });
  m.add(ids[2], [&](int i, int j) { return irregular(i, j, 4); });
  R.trace();
  std::vector<double> xs = {vp::kNaN}, ys = {vp::kNaN};
  for (auto* p : {&lon, &lat})
    for (double f : {-1e6, -720.0, -360.0, -50.0, -1.0, -0.51, -0.5, -0.49, -0.1, -1e-6, 0.0, 0.5, p->n - 1.0, p->n - 1 + 1e-6, p->n - 0.9, p->n - 0.51, p->n - 0.5, p->n - 0.49, double(p->n), p->n + 50.0, 360.0, 720.0, 1e6})
      (p == &lon ? xs : ys).push_back(p->start + f * p->step);
  for (double x : {-400.0, -181.0, 181.0, 355.0, 361.0}) xs.push_back(x);
  for (double x : xs)
    for (double y : ys) { R.state(vp::mix(vp::mix(lon.hash(), lat.hash()), vp::mix(vp::bits(x), vp::bits(y)))); compare<T>(m, x, y); }
}

// The prediction at undefined positions.
static void predict(const Line& lon, const Line& lat, fes::TideType tt) {
  if (!R.begin("prediction")) return;
  Model<double> m(lon, lat, true, tt);
  for (int c = 0; c < 3; ++c) m.add(ids[c], [&](int i, int j) { return (i == 1 && j == 1) ? cd(vp::kNaN, vp::kNaN) : (i == 2) ? hole(c, irregular(i, j, c)) : irregular(i, j, c); });
  R.trace();
  std::vector<double> xs, ys;
  for (int i = -1; i <= lon.n; ++i)
    for (int j = -1; j <= lat.n; ++j)
      for (double f : {0.0, 0.3}) { xs.push_back(lon.at(i) + f * lon.step); ys.push_back(lat.at(j) + f * lat.step); }
  const int n = xs.size();
  Eigen::VectorXd t(n), x(n), y(n);
  fes::Vector<uint16_t> leap(n);
  for (int i = 0; i < n; ++i) { t[i] = 5e8 + 977.0 * i; x[i] = xs[i]; y[i] = ys[i]; leap[i] = 27; }
  auto r = fes::evaluate_tide<double>(&m.m, t, leap, x, y, fes::Settings(), 1);
  int undefined = 0;
  for (int i = 0; i < n; ++i) {
    R.transition();
    fes::Quality q;
    m.at(xs[i], ys[i], q);
    if (std::get<2>(r)(i) != q) R.fail("prediction-quality", Str() << "at (" << xs[i] << "," << ys[i] << ") quality " << int(std::get<2>(r)(i)) << ", interpolation gives " << int(q));
    const double h = std::get<0>(r)(i);
    if ((q == 0) != (h != h)) R.fail("prediction-value", Str() << "at (" << xs[i] << "," << ys[i] << ") height " << h << " with quality " << int(q));
    undefined += q == 0;
    const double l = std::get<1>(r)(i);
    if (q == 0 && l != l) R.fail("prediction-long-period", Str() << "at (" << xs[i] << "," << ys[i] << ") long period height undefined");
  }
  R.count("undefined predictions", undefined);
}

static void run() {
  const std::vector<Line> lons = {{4, 0, 90, true}, {4, 270, -90, true}, {5, -180, 72, true}, {4, 10, 0.5, false}, {4, 350, -2, false}};
  const std::vector<Line> lats = {{4, -90, 60, false}, {4, 30, -0.25, false}};
  for (auto& x : lons)
    for (auto& y : lats)
      for (int major = 0; major < 2; ++major) {
        outside<double>(x, y, major);
        outside<float>(x, y, major);
        for (int ci = 0; ci < (x.circ ? x.n : x.n - 1); ++ci)
          for (int cj = 0; cj < y.n - 1; ++cj)
            for (int kind = 0; kind < 5; ++kind)
              for (int others = 0; others < 2; ++others)
                for (int a = 0; a < 16; ++a) {
                  pattern<double>(x, y, major, ci, cj, {a}, kind, others);
                  if (kind == 0) pattern<float>(x, y, major, ci, cj, {a}, kind, others);
                }
        // several constituents, independent patterns
        for (int a = 0; a < 16; ++a)
          for (int b = 0; b < 16; ++b) {
            pattern<double>(x, y, major, 1, 1, {a, b}, 0, false);
            pattern<double>(x, y, major, x.circ ? x.n - 1 : 0, 0, {a, b}, 0, true);
            for (int c = 0; c < 16; ++c)
              if (R.thorough() || (major && y.step > 0)) pattern<double>(x, y, major, 1, 1, {a, b, c}, 0, true);
          }
      }
  for (auto& x : lons)
    for (auto& y : lats)
      for (auto tt : {fes::kTide, fes::kRadial}) predict(x, y, tt);
}
VP_MAIN(run)
